// Generated by tools/gen_traits.py - do not edit.
#![allow(warnings)]
use super::{Dele, Log, Own, OwnMarker, Outcome, Spy};
use futures::executor::block_on;
use futures::Future;
use jester_sharing::Delegate;
use jester_sharing_proc::delegatable_protocol;
use std::marker::PhantomData;
use std::pin::Pin;

/// nothing
#[delegatable_protocol]
pub trait Shape0<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send,
{
    fn work0() -> Vec<u64>;
    /// documented
    fn apply0() -> Vec<u64>;
    fn begin0() -> Vec<u64>;
    /// documented
    fn zeta0() -> Vec<u64>;
    fn reveal0() -> Vec<u64>;
    /// documented
    fn a0() -> Vec<u64>;
    fn Upper0() -> Vec<u64>;
    /// documented
    fn snake_case_name_of_a_method0() -> Vec<u64>;
    fn new0() -> Vec<u64>;
    /// documented
    fn delegate0() -> Vec<u64>;
    fn p0() -> Vec<u64>;
    /// documented
    fn multiply0() -> Vec<u64>;
    fn offset() -> u64 {
        1000
    }
    fn twice0() -> u64 {
        Self::offset() * 2
    }
}
pub struct Worker0<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape0<T, S, P> for Worker0<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send,
{
    fn work0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![1, 0, 0]; r
    }
    fn apply0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![1, 0, 1]; r
    }
    fn begin0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![1, 0, 2]; r
    }
    fn zeta0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![1, 0, 3]; r
    }
    fn reveal0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![1, 0, 4]; r
    }
    fn a0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![1, 0, 5]; r
    }
    fn Upper0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![1, 0, 6]; r
    }
    fn snake_case_name_of_a_method0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![1, 0, 7]; r
    }
    fn new0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![1, 0, 8]; r
    }
    fn delegate0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![1, 0, 9]; r
    }
    fn p0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![1, 0, 10]; r
    }
    fn multiply0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![1, 0, 11]; r
    }
}
pub struct Decoy0<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape0<T, S, P> for Decoy0<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send,
{
    fn work0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![3, 0, 0]; r
    }
    fn apply0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![3, 0, 1]; r
    }
    fn begin0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![3, 0, 2]; r
    }
    fn zeta0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![3, 0, 3]; r
    }
    fn reveal0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![3, 0, 4]; r
    }
    fn a0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![3, 0, 5]; r
    }
    fn Upper0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![3, 0, 6]; r
    }
    fn snake_case_name_of_a_method0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![3, 0, 7]; r
    }
    fn new0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![3, 0, 8]; r
    }
    fn delegate0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![3, 0, 9]; r
    }
    fn p0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![3, 0, 10]; r
    }
    fn multiply0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![3, 0, 11]; r
    }
}
impl Shape0Marker for Dele {
    type Marker = Delegate;
}
impl Shape0Delegate<u8, u16, Dele> for Dele {
    type Delegate = Worker0<u8, u16, Dele>;
}
impl Shape0Marker for Own {
    type Marker = OwnMarker;
}
impl Shape0Delegate<u8, u16, Own> for Own {
    type Delegate = Decoy0<u8, u16, Own>;
}
impl Shape0Impl<u8, u16, Own, OwnMarker> for Own {
    fn work0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![2, 0, 0]; r
    }
    fn apply0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![2, 0, 1]; r
    }
    fn begin0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![2, 0, 2]; r
    }
    fn zeta0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![2, 0, 3]; r
    }
    fn reveal0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![2, 0, 4]; r
    }
    fn a0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![2, 0, 5]; r
    }
    fn Upper0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![2, 0, 6]; r
    }
    fn snake_case_name_of_a_method0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![2, 0, 7]; r
    }
    fn new0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![2, 0, 8]; r
    }
    fn delegate0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![2, 0, 9]; r
    }
    fn p0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![2, 0, 10]; r
    }
    fn multiply0() -> Vec<u64>
    {
        let r: Vec<u64> = vec![2, 0, 11]; r
    }
}
fn call0_0<X: Shape0<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 0, 0];
    let got = <X as Shape0<u8, u16, X>>::work0();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call0_1<X: Shape0<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 0, 1];
    let got = <X as Shape0<u8, u16, X>>::apply0();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call0_2<X: Shape0<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 0, 2];
    let got = <X as Shape0<u8, u16, X>>::begin0();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call0_3<X: Shape0<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 0, 3];
    let got = <X as Shape0<u8, u16, X>>::zeta0();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call0_4<X: Shape0<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 0, 4];
    let got = <X as Shape0<u8, u16, X>>::reveal0();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call0_5<X: Shape0<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 0, 5];
    let got = <X as Shape0<u8, u16, X>>::a0();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call0_6<X: Shape0<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 0, 6];
    let got = <X as Shape0<u8, u16, X>>::Upper0();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call0_7<X: Shape0<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 0, 7];
    let got = <X as Shape0<u8, u16, X>>::snake_case_name_of_a_method0();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call0_8<X: Shape0<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 0, 8];
    let got = <X as Shape0<u8, u16, X>>::new0();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call0_9<X: Shape0<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 0, 9];
    let got = <X as Shape0<u8, u16, X>>::delegate0();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call0_10<X: Shape0<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 0, 10];
    let got = <X as Shape0<u8, u16, X>>::p0();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call0_11<X: Shape0<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 0, 11];
    let got = <X as Shape0<u8, u16, X>>::multiply0();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn default0<X: Shape0<u8, u16, X>+ Log + Send + Sync + 'static>(_: &[u8], _: u64) -> Outcome
{
    super::same("a default method", &<X as Shape0<u8, u16, X>>::twice0(), &2000)
}
/// nothing
#[delegatable_protocol]
trait Shape1<P,>
where
    P: Log,
{
    fn work1<'a>() -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    /// documented
    fn apply1<'a>() -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
}
pub struct Worker1<P>(PhantomData<P>);
impl<P> Shape1<P> for Worker1<P>
where
    P: Log,
{
    fn work1<'a>() -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let r: Vec<u64> = vec![1, 1, 0]; Box::pin(async move { r })
    }
    fn apply1<'a>() -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let r: Vec<u64> = vec![1, 1, 1]; Box::pin(async move { r })
    }
}
pub struct Decoy1<P>(PhantomData<P>);
impl<P> Shape1<P> for Decoy1<P>
where
    P: Log,
{
    fn work1<'a>() -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let r: Vec<u64> = vec![3, 1, 0]; Box::pin(async move { r })
    }
    fn apply1<'a>() -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let r: Vec<u64> = vec![3, 1, 1]; Box::pin(async move { r })
    }
}
impl Shape1Marker for Dele {
    type Marker = Delegate;
}
impl Shape1Delegate<Dele> for Dele {
    type Delegate = Worker1<Dele>;
}
impl Shape1Marker for Own {
    type Marker = OwnMarker;
}
impl Shape1Delegate<Own> for Own {
    type Delegate = Decoy1<Own>;
}
impl Shape1Impl<Own, OwnMarker> for Own {
    fn work1<'a>() -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let r: Vec<u64> = vec![2, 1, 0]; Box::pin(async move { r })
    }
    fn apply1<'a>() -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let r: Vec<u64> = vec![2, 1, 1]; Box::pin(async move { r })
    }
}
fn call1_0<X: Shape1<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 1, 0];
    let got = block_on(<X as Shape1<X>>::work1());
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call1_1<X: Shape1<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 1, 1];
    let got = block_on(<X as Shape1<X>>::apply1());
    super::same("the result", &got, &want)?;
    Ok(())
}
/// u8
#[delegatable_protocol]
trait Shape2<P>
where
    P: Log
{
    fn work2<'a>(rng0: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    /// documented
    fn apply2<'a>(protocol0: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
}
pub struct Worker2<P>(PhantomData<P>);
impl<P> Shape2<P> for Worker2<P>
where
    P: Log
{
    fn work2<'a>(rng0: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = rng0 as u64; let r: Vec<u64> = vec![1, 2, 0, e0]; Box::pin(async move { r })
    }
    fn apply2<'a>(protocol0: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = protocol0 as u64; let r: Vec<u64> = vec![1, 2, 1, e0]; Box::pin(async move { r })
    }
}
pub struct Decoy2<P>(PhantomData<P>);
impl<P> Shape2<P> for Decoy2<P>
where
    P: Log
{
    fn work2<'a>(rng0: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = rng0 as u64; let r: Vec<u64> = vec![3, 2, 0, e0]; Box::pin(async move { r })
    }
    fn apply2<'a>(protocol0: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = protocol0 as u64; let r: Vec<u64> = vec![3, 2, 1, e0]; Box::pin(async move { r })
    }
}
impl Shape2Marker for Dele {
    type Marker = Delegate;
}
impl Shape2Delegate<Dele> for Dele {
    type Delegate = Worker2<Dele>;
}
impl Shape2Marker for Own {
    type Marker = OwnMarker;
}
impl Shape2Delegate<Own> for Own {
    type Delegate = Decoy2<Own>;
}
impl Shape2Impl<Own, OwnMarker> for Own {
    fn work2<'a>(rng0: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = rng0 as u64; let r: Vec<u64> = vec![2, 2, 0, e0]; Box::pin(async move { r })
    }
    fn apply2<'a>(protocol0: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = protocol0 as u64; let r: Vec<u64> = vec![2, 2, 1, e0]; Box::pin(async move { r })
    }
}
fn call2_0<X: Shape2<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0];
    let want: Vec<u64> = vec![tag, 2, 0, v0 as u64];
    let got = block_on(<X as Shape2<X>>::work2(v0));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call2_1<X: Shape2<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0];
    let want: Vec<u64> = vec![tag, 2, 1, v0 as u64];
    let got = block_on(<X as Shape2<X>>::apply2(v0));
    super::same("the result", &got, &want)?;
    Ok(())
}
/// u8
#[delegatable_protocol]
pub(crate) trait Shape3<T, P, S>
where
    P: Log,
    S: IntoIterator<Item = T>,
    T: Into<u64>
{
    fn work3(b: u8) -> Result<Vec<u64>, String>;
    /// documented
    fn apply3(first: u8) -> Result<Vec<u64>, String>;
    fn begin3(lhs: u8) -> Result<Vec<u64>, String>;
}
pub struct Worker3<T, P, S>(PhantomData<T>, PhantomData<P>, PhantomData<S>);
impl<T, P, S> Shape3<T, P, S> for Worker3<T, P, S>
where
    P: Log,
    S: IntoIterator<Item = T>,
    T: Into<u64>
{
    fn work3(b: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = b as u64; let r: Vec<u64> = vec![1, 3, 0, e0]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply3(first: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = first as u64; let r: Vec<u64> = vec![1, 3, 1, e0]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn begin3(lhs: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = lhs as u64; let r: Vec<u64> = vec![1, 3, 2, e0]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
pub struct Decoy3<T, P, S>(PhantomData<T>, PhantomData<P>, PhantomData<S>);
impl<T, P, S> Shape3<T, P, S> for Decoy3<T, P, S>
where
    P: Log,
    S: IntoIterator<Item = T>,
    T: Into<u64>
{
    fn work3(b: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = b as u64; let r: Vec<u64> = vec![3, 3, 0, e0]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply3(first: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = first as u64; let r: Vec<u64> = vec![3, 3, 1, e0]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn begin3(lhs: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = lhs as u64; let r: Vec<u64> = vec![3, 3, 2, e0]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
impl Shape3Marker for Dele {
    type Marker = Delegate;
}
impl Shape3Delegate<u8, Dele, Vec<u8>> for Dele {
    type Delegate = Worker3<u8, Dele, Vec<u8>>;
}
impl Shape3Marker for Own {
    type Marker = OwnMarker;
}
impl Shape3Delegate<u8, Own, Vec<u8>> for Own {
    type Delegate = Decoy3<u8, Own, Vec<u8>>;
}
impl Shape3Impl<u8, Own, Vec<u8>, OwnMarker> for Own {
    fn work3(b: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = b as u64; let r: Vec<u64> = vec![2, 3, 0, e0]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply3(first: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = first as u64; let r: Vec<u64> = vec![2, 3, 1, e0]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn begin3(lhs: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = lhs as u64; let r: Vec<u64> = vec![2, 3, 2, e0]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
fn call3_0<X: Shape3<u8, X, Vec<u8>> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0];
    let want: Vec<u64> = vec![tag, 3, 0, v0 as u64];
    let got = <X as Shape3<u8, X, Vec<u8>>>::work3(v0);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call3_1<X: Shape3<u8, X, Vec<u8>> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0];
    let want: Vec<u64> = vec![tag, 3, 1, v0 as u64];
    let got = <X as Shape3<u8, X, Vec<u8>>>::apply3(v0);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call3_2<X: Shape3<u8, X, Vec<u8>> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0];
    let want: Vec<u64> = vec![tag, 3, 2, v0 as u64];
    let got = <X as Shape3<u8, X, Vec<u8>>>::begin3(v0);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
/// u8, u8
#[delegatable_protocol]
pub(crate) trait Shape4<P, T>
where
    P: Log + Send + Sync,
    T: Clone + 'static,
{
    fn work4(rng0: u8, protocol1: u8) -> Result<Vec<u64>, String>;
    /// documented
    fn apply4(protocol0: u8, lhs1: u8) -> Result<Vec<u64>, String>;
    fn begin4(lhs0: u8, rhs1: u8) -> Result<Vec<u64>, String>;
}
pub struct Worker4<P, T>(PhantomData<P>, PhantomData<T>);
impl<P, T> Shape4<P, T> for Worker4<P, T>
where
    P: Log + Send + Sync,
    T: Clone + 'static,
{
    fn work4(rng0: u8, protocol1: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = rng0 as u64; let e1: u64 = protocol1 as u64; let r: Vec<u64> = vec![1, 4, 0, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply4(protocol0: u8, lhs1: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = protocol0 as u64; let e1: u64 = lhs1 as u64; let r: Vec<u64> = vec![1, 4, 1, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn begin4(lhs0: u8, rhs1: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = lhs0 as u64; let e1: u64 = rhs1 as u64; let r: Vec<u64> = vec![1, 4, 2, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
pub struct Decoy4<P, T>(PhantomData<P>, PhantomData<T>);
impl<P, T> Shape4<P, T> for Decoy4<P, T>
where
    P: Log + Send + Sync,
    T: Clone + 'static,
{
    fn work4(rng0: u8, protocol1: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = rng0 as u64; let e1: u64 = protocol1 as u64; let r: Vec<u64> = vec![3, 4, 0, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply4(protocol0: u8, lhs1: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = protocol0 as u64; let e1: u64 = lhs1 as u64; let r: Vec<u64> = vec![3, 4, 1, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn begin4(lhs0: u8, rhs1: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = lhs0 as u64; let e1: u64 = rhs1 as u64; let r: Vec<u64> = vec![3, 4, 2, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
impl Shape4Marker for Dele {
    type Marker = Delegate;
}
impl Shape4Delegate<Dele, u8> for Dele {
    type Delegate = Worker4<Dele, u8>;
}
impl Shape4Marker for Own {
    type Marker = OwnMarker;
}
impl Shape4Delegate<Own, u8> for Own {
    type Delegate = Decoy4<Own, u8>;
}
impl Shape4Impl<Own, u8, OwnMarker> for Own {
    fn work4(rng0: u8, protocol1: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = rng0 as u64; let e1: u64 = protocol1 as u64; let r: Vec<u64> = vec![2, 4, 0, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply4(protocol0: u8, lhs1: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = protocol0 as u64; let e1: u64 = lhs1 as u64; let r: Vec<u64> = vec![2, 4, 1, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn begin4(lhs0: u8, rhs1: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = lhs0 as u64; let e1: u64 = rhs1 as u64; let r: Vec<u64> = vec![2, 4, 2, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
fn call4_0<X: Shape4<X, u8> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 4, 0, v0 as u64, v1 as u64];
    let got = <X as Shape4<X, u8>>::work4(v0, v1);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call4_1<X: Shape4<X, u8> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 4, 1, v0 as u64, v1 as u64];
    let got = <X as Shape4<X, u8>>::apply4(v0, v1);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call4_2<X: Shape4<X, u8> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 4, 2, v0 as u64, v1 as u64];
    let got = <X as Shape4<X, u8>>::begin4(v0, v1);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
/// u8, u8
#[delegatable_protocol]
pub trait Shape5<A, B, C, D, E, F, G, P>
where
    P: Log
{
    fn work5(operand_b: u8, rhs: u8,);
}
pub struct Worker5<A, B, C, D, E, F, G, P>(PhantomData<A>, PhantomData<B>, PhantomData<C>, PhantomData<D>, PhantomData<E>, PhantomData<F>, PhantomData<G>, PhantomData<P>);
impl<A, B, C, D, E, F, G, P> Shape5<A, B, C, D, E, F, G, P> for Worker5<A, B, C, D, E, F, G, P>
where
    P: Log
{
    fn work5(operand_b: u8, rhs: u8,)
    {
        let e0: u64 = operand_b as u64; let e1: u64 = rhs as u64; let r: Vec<u64> = vec![1, 5, 0, e0, e1]; super::note(r);
    }
}
pub struct Decoy5<A, B, C, D, E, F, G, P>(PhantomData<A>, PhantomData<B>, PhantomData<C>, PhantomData<D>, PhantomData<E>, PhantomData<F>, PhantomData<G>, PhantomData<P>);
impl<A, B, C, D, E, F, G, P> Shape5<A, B, C, D, E, F, G, P> for Decoy5<A, B, C, D, E, F, G, P>
where
    P: Log
{
    fn work5(operand_b: u8, rhs: u8,)
    {
        let e0: u64 = operand_b as u64; let e1: u64 = rhs as u64; let r: Vec<u64> = vec![3, 5, 0, e0, e1]; super::note(r);
    }
}
impl Shape5Marker for Dele {
    type Marker = Delegate;
}
impl Shape5Delegate<u8, u16, u32, u64, i8, i16, i32, Dele> for Dele {
    type Delegate = Worker5<u8, u16, u32, u64, i8, i16, i32, Dele>;
}
impl Shape5Marker for Own {
    type Marker = OwnMarker;
}
impl Shape5Delegate<u8, u16, u32, u64, i8, i16, i32, Own> for Own {
    type Delegate = Decoy5<u8, u16, u32, u64, i8, i16, i32, Own>;
}
impl Shape5Impl<u8, u16, u32, u64, i8, i16, i32, Own, OwnMarker> for Own {
    fn work5(operand_b: u8, rhs: u8,)
    {
        let e0: u64 = operand_b as u64; let e1: u64 = rhs as u64; let r: Vec<u64> = vec![2, 5, 0, e0, e1]; super::note(r);
    }
}
fn call5_0<X: Shape5<u8, u16, u32, u64, i8, i16, i32, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 5, 0, v0 as u64, v1 as u64];
    let got: () = <X as Shape5<u8, u16, u32, u64, i8, i16, i32, X>>::work5(v0, v1); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
/// u8, u8, u8
#[delegatable_protocol]
pub trait Shape6<'b, T, P>
where
    P: Log,
    T: Send
{
    fn work6(rng0: u8, protocol1: u8, lhs2: u8);
}
pub struct Worker6<'b, T, P>(PhantomData<&'b ()>, PhantomData<T>, PhantomData<P>);
impl<'b, T, P> Shape6<'b, T, P> for Worker6<'b, T, P>
where
    P: Log,
    T: Send
{
    fn work6(rng0: u8, protocol1: u8, lhs2: u8)
    {
        let e0: u64 = rng0 as u64; let e1: u64 = protocol1 as u64; let e2: u64 = lhs2 as u64; let r: Vec<u64> = vec![1, 6, 0, e0, e1, e2]; super::note(r);
    }
}
pub struct Decoy6<'b, T, P>(PhantomData<&'b ()>, PhantomData<T>, PhantomData<P>);
impl<'b, T, P> Shape6<'b, T, P> for Decoy6<'b, T, P>
where
    P: Log,
    T: Send
{
    fn work6(rng0: u8, protocol1: u8, lhs2: u8)
    {
        let e0: u64 = rng0 as u64; let e1: u64 = protocol1 as u64; let e2: u64 = lhs2 as u64; let r: Vec<u64> = vec![3, 6, 0, e0, e1, e2]; super::note(r);
    }
}
impl Shape6Marker for Dele {
    type Marker = Delegate;
}
impl Shape6Delegate<'static, u8, Dele> for Dele {
    type Delegate = Worker6<'static, u8, Dele>;
}
impl Shape6Marker for Own {
    type Marker = OwnMarker;
}
impl Shape6Delegate<'static, u8, Own> for Own {
    type Delegate = Decoy6<'static, u8, Own>;
}
impl Shape6Impl<'static, u8, Own, OwnMarker> for Own {
    fn work6(rng0: u8, protocol1: u8, lhs2: u8)
    {
        let e0: u64 = rng0 as u64; let e1: u64 = protocol1 as u64; let e2: u64 = lhs2 as u64; let r: Vec<u64> = vec![2, 6, 0, e0, e1, e2]; super::note(r);
    }
}
fn call6_0<X: Shape6<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 6, 0, v0 as u64, v1 as u64, v2 as u64];
    let got: () = <X as Shape6<'static, u8, X>>::work6(v0, v1, v2); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
/// u8, u8, u8
#[delegatable_protocol]
trait Shape7<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send,
{
    fn work7(second: u8, bits: u8, shares: u8,) -> Vec<u64>;
    /// documented
    fn apply7(rhs: u8, rng: u8, values: u8,) -> Vec<u64>;
    fn offset() -> u64 {
        1000
    }
    fn twice7() -> u64 {
        Self::offset() * 2
    }
}
pub struct Worker7<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape7<T, S, P> for Worker7<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send,
{
    fn work7(second: u8, bits: u8, shares: u8,) -> Vec<u64>
    {
        let e0: u64 = second as u64; let e1: u64 = bits as u64; let e2: u64 = shares as u64; let r: Vec<u64> = vec![1, 7, 0, e0, e1, e2]; r
    }
    fn apply7(rhs: u8, rng: u8, values: u8,) -> Vec<u64>
    {
        let e0: u64 = rhs as u64; let e1: u64 = rng as u64; let e2: u64 = values as u64; let r: Vec<u64> = vec![1, 7, 1, e0, e1, e2]; r
    }
}
pub struct Decoy7<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape7<T, S, P> for Decoy7<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send,
{
    fn work7(second: u8, bits: u8, shares: u8,) -> Vec<u64>
    {
        let e0: u64 = second as u64; let e1: u64 = bits as u64; let e2: u64 = shares as u64; let r: Vec<u64> = vec![3, 7, 0, e0, e1, e2]; r
    }
    fn apply7(rhs: u8, rng: u8, values: u8,) -> Vec<u64>
    {
        let e0: u64 = rhs as u64; let e1: u64 = rng as u64; let e2: u64 = values as u64; let r: Vec<u64> = vec![3, 7, 1, e0, e1, e2]; r
    }
}
impl Shape7Marker for Dele {
    type Marker = Delegate;
}
impl Shape7Delegate<u8, u16, Dele> for Dele {
    type Delegate = Worker7<u8, u16, Dele>;
}
impl Shape7Marker for Own {
    type Marker = OwnMarker;
}
impl Shape7Delegate<u8, u16, Own> for Own {
    type Delegate = Decoy7<u8, u16, Own>;
}
impl Shape7Impl<u8, u16, Own, OwnMarker> for Own {
    fn work7(second: u8, bits: u8, shares: u8,) -> Vec<u64>
    {
        let e0: u64 = second as u64; let e1: u64 = bits as u64; let e2: u64 = shares as u64; let r: Vec<u64> = vec![2, 7, 0, e0, e1, e2]; r
    }
    fn apply7(rhs: u8, rng: u8, values: u8,) -> Vec<u64>
    {
        let e0: u64 = rhs as u64; let e1: u64 = rng as u64; let e2: u64 = values as u64; let r: Vec<u64> = vec![2, 7, 1, e0, e1, e2]; r
    }
}
fn call7_0<X: Shape7<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 7, 0, v0 as u64, v1 as u64, v2 as u64];
    let got = <X as Shape7<u8, u16, X>>::work7(v0, v1, v2);
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call7_1<X: Shape7<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 7, 1, v0 as u64, v1 as u64, v2 as u64];
    let got = <X as Shape7<u8, u16, X>>::apply7(v0, v1, v2);
    super::same("the result", &got, &want)?;
    Ok(())
}
fn default7<X: Shape7<u8, u16, X>+ Log + Send + Sync + 'static>(_: &[u8], _: u64) -> Outcome
{
    super::same("a default method", &<X as Shape7<u8, u16, X>>::twice7(), &2000)
}
/// u8, u8, u8, u8
#[delegatable_protocol]
trait Shape8<Marked, Other, P>
where
    P: Log,
    Marked: Copy,
    Other: Copy,
{
    fn work8(rng0: u8, protocol1: u8, lhs2: u8, rhs3: u8,) -> Vec<u64>;
    /// documented
    fn apply8(protocol0: u8, lhs1: u8, rhs2: u8, x3: u8,) -> Vec<u64>;
    fn offset() -> u64 {
        1000
    }
    fn twice8() -> u64 {
        Self::offset() * 2
    }
}
pub struct Worker8<Marked, Other, P>(PhantomData<Marked>, PhantomData<Other>, PhantomData<P>);
impl<Marked, Other, P> Shape8<Marked, Other, P> for Worker8<Marked, Other, P>
where
    P: Log,
    Marked: Copy,
    Other: Copy,
{
    fn work8(rng0: u8, protocol1: u8, lhs2: u8, rhs3: u8,) -> Vec<u64>
    {
        let e0: u64 = rng0 as u64; let e1: u64 = protocol1 as u64; let e2: u64 = lhs2 as u64; let e3: u64 = rhs3 as u64; let r: Vec<u64> = vec![1, 8, 0, e0, e1, e2, e3]; r
    }
    fn apply8(protocol0: u8, lhs1: u8, rhs2: u8, x3: u8,) -> Vec<u64>
    {
        let e0: u64 = protocol0 as u64; let e1: u64 = lhs1 as u64; let e2: u64 = rhs2 as u64; let e3: u64 = x3 as u64; let r: Vec<u64> = vec![1, 8, 1, e0, e1, e2, e3]; r
    }
}
pub struct Decoy8<Marked, Other, P>(PhantomData<Marked>, PhantomData<Other>, PhantomData<P>);
impl<Marked, Other, P> Shape8<Marked, Other, P> for Decoy8<Marked, Other, P>
where
    P: Log,
    Marked: Copy,
    Other: Copy,
{
    fn work8(rng0: u8, protocol1: u8, lhs2: u8, rhs3: u8,) -> Vec<u64>
    {
        let e0: u64 = rng0 as u64; let e1: u64 = protocol1 as u64; let e2: u64 = lhs2 as u64; let e3: u64 = rhs3 as u64; let r: Vec<u64> = vec![3, 8, 0, e0, e1, e2, e3]; r
    }
    fn apply8(protocol0: u8, lhs1: u8, rhs2: u8, x3: u8,) -> Vec<u64>
    {
        let e0: u64 = protocol0 as u64; let e1: u64 = lhs1 as u64; let e2: u64 = rhs2 as u64; let e3: u64 = x3 as u64; let r: Vec<u64> = vec![3, 8, 1, e0, e1, e2, e3]; r
    }
}
impl Shape8Marker for Dele {
    type Marker = Delegate;
}
impl Shape8Delegate<u8, u16, Dele> for Dele {
    type Delegate = Worker8<u8, u16, Dele>;
}
impl Shape8Marker for Own {
    type Marker = OwnMarker;
}
impl Shape8Delegate<u8, u16, Own> for Own {
    type Delegate = Decoy8<u8, u16, Own>;
}
impl Shape8Impl<u8, u16, Own, OwnMarker> for Own {
    fn work8(rng0: u8, protocol1: u8, lhs2: u8, rhs3: u8,) -> Vec<u64>
    {
        let e0: u64 = rng0 as u64; let e1: u64 = protocol1 as u64; let e2: u64 = lhs2 as u64; let e3: u64 = rhs3 as u64; let r: Vec<u64> = vec![2, 8, 0, e0, e1, e2, e3]; r
    }
    fn apply8(protocol0: u8, lhs1: u8, rhs2: u8, x3: u8,) -> Vec<u64>
    {
        let e0: u64 = protocol0 as u64; let e1: u64 = lhs1 as u64; let e2: u64 = rhs2 as u64; let e3: u64 = x3 as u64; let r: Vec<u64> = vec![2, 8, 1, e0, e1, e2, e3]; r
    }
}
fn call8_0<X: Shape8<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3];
    let want: Vec<u64> = vec![tag, 8, 0, v0 as u64, v1 as u64, v2 as u64, v3 as u64];
    let got = <X as Shape8<u8, u16, X>>::work8(v0, v1, v2, v3);
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call8_1<X: Shape8<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3];
    let want: Vec<u64> = vec![tag, 8, 1, v0 as u64, v1 as u64, v2 as u64, v3 as u64];
    let got = <X as Shape8<u8, u16, X>>::apply8(v0, v1, v2, v3);
    super::same("the result", &got, &want)?;
    Ok(())
}
fn default8<X: Shape8<u8, u16, X>+ Log + Send + Sync + 'static>(_: &[u8], _: u64) -> Outcome
{
    super::same("a default method", &<X as Shape8<u8, u16, X>>::twice8(), &2000)
}
/// u8, u8, u8, u8
#[delegatable_protocol]
pub(crate) trait Shape9<P>
where
    P: Log
{
    fn work9<'a>(lhs: u8, count: u8, index: u8, marker: u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    /// documented
    fn apply9<'a>(bits: u8, shares: u8, z: u8, x1: u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    fn begin9<'a>(rng: u8, values: u8, delegate: u8, super_: u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
}
pub struct Worker9<P>(PhantomData<P>);
impl<P> Shape9<P> for Worker9<P>
where
    P: Log
{
    fn work9<'a>(lhs: u8, count: u8, index: u8, marker: u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = lhs as u64; let e1: u64 = count as u64; let e2: u64 = index as u64; let e3: u64 = marker as u64; let r: Vec<u64> = vec![1, 9, 0, e0, e1, e2, e3]; Box::pin(async move { r })
    }
    fn apply9<'a>(bits: u8, shares: u8, z: u8, x1: u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = bits as u64; let e1: u64 = shares as u64; let e2: u64 = z as u64; let e3: u64 = x1 as u64; let r: Vec<u64> = vec![1, 9, 1, e0, e1, e2, e3]; Box::pin(async move { r })
    }
    fn begin9<'a>(rng: u8, values: u8, delegate: u8, super_: u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = rng as u64; let e1: u64 = values as u64; let e2: u64 = delegate as u64; let e3: u64 = super_ as u64; let r: Vec<u64> = vec![1, 9, 2, e0, e1, e2, e3]; Box::pin(async move { r })
    }
}
pub struct Decoy9<P>(PhantomData<P>);
impl<P> Shape9<P> for Decoy9<P>
where
    P: Log
{
    fn work9<'a>(lhs: u8, count: u8, index: u8, marker: u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = lhs as u64; let e1: u64 = count as u64; let e2: u64 = index as u64; let e3: u64 = marker as u64; let r: Vec<u64> = vec![3, 9, 0, e0, e1, e2, e3]; Box::pin(async move { r })
    }
    fn apply9<'a>(bits: u8, shares: u8, z: u8, x1: u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = bits as u64; let e1: u64 = shares as u64; let e2: u64 = z as u64; let e3: u64 = x1 as u64; let r: Vec<u64> = vec![3, 9, 1, e0, e1, e2, e3]; Box::pin(async move { r })
    }
    fn begin9<'a>(rng: u8, values: u8, delegate: u8, super_: u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = rng as u64; let e1: u64 = values as u64; let e2: u64 = delegate as u64; let e3: u64 = super_ as u64; let r: Vec<u64> = vec![3, 9, 2, e0, e1, e2, e3]; Box::pin(async move { r })
    }
}
impl Shape9Marker for Dele {
    type Marker = Delegate;
}
impl Shape9Delegate<Dele> for Dele {
    type Delegate = Worker9<Dele>;
}
impl Shape9Marker for Own {
    type Marker = OwnMarker;
}
impl Shape9Delegate<Own> for Own {
    type Delegate = Decoy9<Own>;
}
impl Shape9Impl<Own, OwnMarker> for Own {
    fn work9<'a>(lhs: u8, count: u8, index: u8, marker: u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = lhs as u64; let e1: u64 = count as u64; let e2: u64 = index as u64; let e3: u64 = marker as u64; let r: Vec<u64> = vec![2, 9, 0, e0, e1, e2, e3]; Box::pin(async move { r })
    }
    fn apply9<'a>(bits: u8, shares: u8, z: u8, x1: u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = bits as u64; let e1: u64 = shares as u64; let e2: u64 = z as u64; let e3: u64 = x1 as u64; let r: Vec<u64> = vec![2, 9, 1, e0, e1, e2, e3]; Box::pin(async move { r })
    }
    fn begin9<'a>(rng: u8, values: u8, delegate: u8, super_: u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = rng as u64; let e1: u64 = values as u64; let e2: u64 = delegate as u64; let e3: u64 = super_ as u64; let r: Vec<u64> = vec![2, 9, 2, e0, e1, e2, e3]; Box::pin(async move { r })
    }
}
fn call9_0<X: Shape9<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3];
    let want: Vec<u64> = vec![tag, 9, 0, v0 as u64, v1 as u64, v2 as u64, v3 as u64];
    let got = block_on(<X as Shape9<X>>::work9(v0, v1, v2, v3));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call9_1<X: Shape9<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3];
    let want: Vec<u64> = vec![tag, 9, 1, v0 as u64, v1 as u64, v2 as u64, v3 as u64];
    let got = block_on(<X as Shape9<X>>::apply9(v0, v1, v2, v3));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call9_2<X: Shape9<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3];
    let want: Vec<u64> = vec![tag, 9, 2, v0 as u64, v1 as u64, v2 as u64, v3 as u64];
    let got = block_on(<X as Shape9<X>>::begin9(v0, v1, v2, v3));
    super::same("the result", &got, &want)?;
    Ok(())
}
/// u8, u8, u8, u8, u8
#[delegatable_protocol]
pub(crate) trait Shape10<T, S, P,>
where
    P: Log + Send,
    T: Send,
    S: Send
{
    fn work10<'a>(rng0: u8, protocol1: u8, lhs2: u8, rhs3: u8, x4: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    /// documented
    fn apply10<'a>(protocol0: u8, lhs1: u8, rhs2: u8, x3: u8, value_4: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    fn begin10<'a>(lhs0: u8, rhs1: u8, x2: u8, value_3: u8, item4: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
}
pub struct Worker10<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape10<T, S, P> for Worker10<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send
{
    fn work10<'a>(rng0: u8, protocol1: u8, lhs2: u8, rhs3: u8, x4: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = rng0 as u64; let e1: u64 = protocol1 as u64; let e2: u64 = lhs2 as u64; let e3: u64 = rhs3 as u64; let e4: u64 = x4 as u64; let r: Vec<u64> = vec![1, 10, 0, e0, e1, e2, e3, e4]; Box::pin(async move { r })
    }
    fn apply10<'a>(protocol0: u8, lhs1: u8, rhs2: u8, x3: u8, value_4: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = protocol0 as u64; let e1: u64 = lhs1 as u64; let e2: u64 = rhs2 as u64; let e3: u64 = x3 as u64; let e4: u64 = value_4 as u64; let r: Vec<u64> = vec![1, 10, 1, e0, e1, e2, e3, e4]; Box::pin(async move { r })
    }
    fn begin10<'a>(lhs0: u8, rhs1: u8, x2: u8, value_3: u8, item4: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = lhs0 as u64; let e1: u64 = rhs1 as u64; let e2: u64 = x2 as u64; let e3: u64 = value_3 as u64; let e4: u64 = item4 as u64; let r: Vec<u64> = vec![1, 10, 2, e0, e1, e2, e3, e4]; Box::pin(async move { r })
    }
}
pub struct Decoy10<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape10<T, S, P> for Decoy10<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send
{
    fn work10<'a>(rng0: u8, protocol1: u8, lhs2: u8, rhs3: u8, x4: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = rng0 as u64; let e1: u64 = protocol1 as u64; let e2: u64 = lhs2 as u64; let e3: u64 = rhs3 as u64; let e4: u64 = x4 as u64; let r: Vec<u64> = vec![3, 10, 0, e0, e1, e2, e3, e4]; Box::pin(async move { r })
    }
    fn apply10<'a>(protocol0: u8, lhs1: u8, rhs2: u8, x3: u8, value_4: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = protocol0 as u64; let e1: u64 = lhs1 as u64; let e2: u64 = rhs2 as u64; let e3: u64 = x3 as u64; let e4: u64 = value_4 as u64; let r: Vec<u64> = vec![3, 10, 1, e0, e1, e2, e3, e4]; Box::pin(async move { r })
    }
    fn begin10<'a>(lhs0: u8, rhs1: u8, x2: u8, value_3: u8, item4: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = lhs0 as u64; let e1: u64 = rhs1 as u64; let e2: u64 = x2 as u64; let e3: u64 = value_3 as u64; let e4: u64 = item4 as u64; let r: Vec<u64> = vec![3, 10, 2, e0, e1, e2, e3, e4]; Box::pin(async move { r })
    }
}
impl Shape10Marker for Dele {
    type Marker = Delegate;
}
impl Shape10Delegate<u8, u16, Dele> for Dele {
    type Delegate = Worker10<u8, u16, Dele>;
}
impl Shape10Marker for Own {
    type Marker = OwnMarker;
}
impl Shape10Delegate<u8, u16, Own> for Own {
    type Delegate = Decoy10<u8, u16, Own>;
}
impl Shape10Impl<u8, u16, Own, OwnMarker> for Own {
    fn work10<'a>(rng0: u8, protocol1: u8, lhs2: u8, rhs3: u8, x4: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = rng0 as u64; let e1: u64 = protocol1 as u64; let e2: u64 = lhs2 as u64; let e3: u64 = rhs3 as u64; let e4: u64 = x4 as u64; let r: Vec<u64> = vec![2, 10, 0, e0, e1, e2, e3, e4]; Box::pin(async move { r })
    }
    fn apply10<'a>(protocol0: u8, lhs1: u8, rhs2: u8, x3: u8, value_4: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = protocol0 as u64; let e1: u64 = lhs1 as u64; let e2: u64 = rhs2 as u64; let e3: u64 = x3 as u64; let e4: u64 = value_4 as u64; let r: Vec<u64> = vec![2, 10, 1, e0, e1, e2, e3, e4]; Box::pin(async move { r })
    }
    fn begin10<'a>(lhs0: u8, rhs1: u8, x2: u8, value_3: u8, item4: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = lhs0 as u64; let e1: u64 = rhs1 as u64; let e2: u64 = x2 as u64; let e3: u64 = value_3 as u64; let e4: u64 = item4 as u64; let r: Vec<u64> = vec![2, 10, 2, e0, e1, e2, e3, e4]; Box::pin(async move { r })
    }
}
fn call10_0<X: Shape10<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4];
    let want: Vec<u64> = vec![tag, 10, 0, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64];
    let got = block_on(<X as Shape10<u8, u16, X>>::work10(v0, v1, v2, v3, v4));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call10_1<X: Shape10<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4];
    let want: Vec<u64> = vec![tag, 10, 1, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64];
    let got = block_on(<X as Shape10<u8, u16, X>>::apply10(v0, v1, v2, v3, v4));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call10_2<X: Shape10<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4];
    let want: Vec<u64> = vec![tag, 10, 2, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64];
    let got = block_on(<X as Shape10<u8, u16, X>>::begin10(v0, v1, v2, v3, v4));
    super::same("the result", &got, &want)?;
    Ok(())
}
/// u8, u8, u8, u8, u8
#[delegatable_protocol]
pub trait Shape11<P, T>
where
    P: Log + Send + Sync,
    T: Clone + 'static,
{
    fn work11(elements: u8, protocol: u8, other: u8, args: u8, output: u8) -> Result<Vec<u64>, String>;
}
pub struct Worker11<P, T>(PhantomData<P>, PhantomData<T>);
impl<P, T> Shape11<P, T> for Worker11<P, T>
where
    P: Log + Send + Sync,
    T: Clone + 'static,
{
    fn work11(elements: u8, protocol: u8, other: u8, args: u8, output: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = elements as u64; let e1: u64 = protocol as u64; let e2: u64 = other as u64; let e3: u64 = args as u64; let e4: u64 = output as u64; let r: Vec<u64> = vec![1, 11, 0, e0, e1, e2, e3, e4]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
pub struct Decoy11<P, T>(PhantomData<P>, PhantomData<T>);
impl<P, T> Shape11<P, T> for Decoy11<P, T>
where
    P: Log + Send + Sync,
    T: Clone + 'static,
{
    fn work11(elements: u8, protocol: u8, other: u8, args: u8, output: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = elements as u64; let e1: u64 = protocol as u64; let e2: u64 = other as u64; let e3: u64 = args as u64; let e4: u64 = output as u64; let r: Vec<u64> = vec![3, 11, 0, e0, e1, e2, e3, e4]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
impl Shape11Marker for Dele {
    type Marker = Delegate;
}
impl Shape11Delegate<Dele, u8> for Dele {
    type Delegate = Worker11<Dele, u8>;
}
impl Shape11Marker for Own {
    type Marker = OwnMarker;
}
impl Shape11Delegate<Own, u8> for Own {
    type Delegate = Decoy11<Own, u8>;
}
impl Shape11Impl<Own, u8, OwnMarker> for Own {
    fn work11(elements: u8, protocol: u8, other: u8, args: u8, output: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = elements as u64; let e1: u64 = protocol as u64; let e2: u64 = other as u64; let e3: u64 = args as u64; let e4: u64 = output as u64; let r: Vec<u64> = vec![2, 11, 0, e0, e1, e2, e3, e4]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
fn call11_0<X: Shape11<X, u8> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4];
    let want: Vec<u64> = vec![tag, 11, 0, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64];
    let got = <X as Shape11<X, u8>>::work11(v0, v1, v2, v3, v4);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
/// u64, u64, u64
#[delegatable_protocol]
pub trait Shape12<P,>
where
    P: Log,
{
    fn work12(rng0: u64, protocol1: u64, lhs2: u64) -> Result<Vec<u64>, String>;
}
pub struct Worker12<P>(PhantomData<P>);
impl<P> Shape12<P> for Worker12<P>
where
    P: Log,
{
    fn work12(rng0: u64, protocol1: u64, lhs2: u64) -> Result<Vec<u64>, String>
    {
        let e0: u64 = rng0; let e1: u64 = protocol1; let e2: u64 = lhs2; let r: Vec<u64> = vec![1, 12, 0, e0, e1, e2]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
pub struct Decoy12<P>(PhantomData<P>);
impl<P> Shape12<P> for Decoy12<P>
where
    P: Log,
{
    fn work12(rng0: u64, protocol1: u64, lhs2: u64) -> Result<Vec<u64>, String>
    {
        let e0: u64 = rng0; let e1: u64 = protocol1; let e2: u64 = lhs2; let r: Vec<u64> = vec![3, 12, 0, e0, e1, e2]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
impl Shape12Marker for Dele {
    type Marker = Delegate;
}
impl Shape12Delegate<Dele> for Dele {
    type Delegate = Worker12<Dele>;
}
impl Shape12Marker for Own {
    type Marker = OwnMarker;
}
impl Shape12Delegate<Own> for Own {
    type Delegate = Decoy12<Own>;
}
impl Shape12Impl<Own, OwnMarker> for Own {
    fn work12(rng0: u64, protocol1: u64, lhs2: u64) -> Result<Vec<u64>, String>
    {
        let e0: u64 = rng0; let e1: u64 = protocol1; let e2: u64 = lhs2; let r: Vec<u64> = vec![2, 12, 0, e0, e1, e2]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
fn call12_0<X: Shape12<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 12, 0, v0 as u64, v1 as u64, v2 as u64];
    let got = <X as Shape12<X>>::work12(v0 as u64, v1 as u64, v2 as u64);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
/// u64, u64, u64
#[delegatable_protocol]
trait Shape13<'b, T, P>
where
    P: Log,
    T: Send
{
    fn work13(secret: u64, threshold: u64, P: u64,);
    /// documented
    fn apply13(protocol: u64, other: u64, args: u64,);
    fn begin13(index: u64, marker: u64, x2: u64,);
    /// documented
    fn zeta13(z: u64, x1: u64, left: u64,);
    fn reveal13(delegate: u64, super_: u64, b: u64,);
    /// documented
    fn a13(x10: u64, right: u64, first: u64,);
    fn Upper13(output: u64, operand_a: u64, lhs: u64,);
    /// documented
    fn snake_case_name_of_a_method13(a: u64, second: u64, bits: u64,);
    fn new13(operand_b: u64, rhs: u64, rng: u64,);
    /// documented
    fn delegate13(condition: u64, secret: u64, threshold: u64,);
    fn p13(elements: u64, protocol: u64, other: u64,);
    /// documented
    fn multiply13(count: u64, index: u64, marker: u64,);
}
pub struct Worker13<'b, T, P>(PhantomData<&'b ()>, PhantomData<T>, PhantomData<P>);
impl<'b, T, P> Shape13<'b, T, P> for Worker13<'b, T, P>
where
    P: Log,
    T: Send
{
    fn work13(secret: u64, threshold: u64, P: u64,)
    {
        let e0: u64 = secret; let e1: u64 = threshold; let e2: u64 = P; let r: Vec<u64> = vec![1, 13, 0, e0, e1, e2]; super::note(r);
    }
    fn apply13(protocol: u64, other: u64, args: u64,)
    {
        let e0: u64 = protocol; let e1: u64 = other; let e2: u64 = args; let r: Vec<u64> = vec![1, 13, 1, e0, e1, e2]; super::note(r);
    }
    fn begin13(index: u64, marker: u64, x2: u64,)
    {
        let e0: u64 = index; let e1: u64 = marker; let e2: u64 = x2; let r: Vec<u64> = vec![1, 13, 2, e0, e1, e2]; super::note(r);
    }
    fn zeta13(z: u64, x1: u64, left: u64,)
    {
        let e0: u64 = z; let e1: u64 = x1; let e2: u64 = left; let r: Vec<u64> = vec![1, 13, 3, e0, e1, e2]; super::note(r);
    }
    fn reveal13(delegate: u64, super_: u64, b: u64,)
    {
        let e0: u64 = delegate; let e1: u64 = super_; let e2: u64 = b; let r: Vec<u64> = vec![1, 13, 4, e0, e1, e2]; super::note(r);
    }
    fn a13(x10: u64, right: u64, first: u64,)
    {
        let e0: u64 = x10; let e1: u64 = right; let e2: u64 = first; let r: Vec<u64> = vec![1, 13, 5, e0, e1, e2]; super::note(r);
    }
    fn Upper13(output: u64, operand_a: u64, lhs: u64,)
    {
        let e0: u64 = output; let e1: u64 = operand_a; let e2: u64 = lhs; let r: Vec<u64> = vec![1, 13, 6, e0, e1, e2]; super::note(r);
    }
    fn snake_case_name_of_a_method13(a: u64, second: u64, bits: u64,)
    {
        let e0: u64 = a; let e1: u64 = second; let e2: u64 = bits; let r: Vec<u64> = vec![1, 13, 7, e0, e1, e2]; super::note(r);
    }
    fn new13(operand_b: u64, rhs: u64, rng: u64,)
    {
        let e0: u64 = operand_b; let e1: u64 = rhs; let e2: u64 = rng; let r: Vec<u64> = vec![1, 13, 8, e0, e1, e2]; super::note(r);
    }
    fn delegate13(condition: u64, secret: u64, threshold: u64,)
    {
        let e0: u64 = condition; let e1: u64 = secret; let e2: u64 = threshold; let r: Vec<u64> = vec![1, 13, 9, e0, e1, e2]; super::note(r);
    }
    fn p13(elements: u64, protocol: u64, other: u64,)
    {
        let e0: u64 = elements; let e1: u64 = protocol; let e2: u64 = other; let r: Vec<u64> = vec![1, 13, 10, e0, e1, e2]; super::note(r);
    }
    fn multiply13(count: u64, index: u64, marker: u64,)
    {
        let e0: u64 = count; let e1: u64 = index; let e2: u64 = marker; let r: Vec<u64> = vec![1, 13, 11, e0, e1, e2]; super::note(r);
    }
}
pub struct Decoy13<'b, T, P>(PhantomData<&'b ()>, PhantomData<T>, PhantomData<P>);
impl<'b, T, P> Shape13<'b, T, P> for Decoy13<'b, T, P>
where
    P: Log,
    T: Send
{
    fn work13(secret: u64, threshold: u64, P: u64,)
    {
        let e0: u64 = secret; let e1: u64 = threshold; let e2: u64 = P; let r: Vec<u64> = vec![3, 13, 0, e0, e1, e2]; super::note(r);
    }
    fn apply13(protocol: u64, other: u64, args: u64,)
    {
        let e0: u64 = protocol; let e1: u64 = other; let e2: u64 = args; let r: Vec<u64> = vec![3, 13, 1, e0, e1, e2]; super::note(r);
    }
    fn begin13(index: u64, marker: u64, x2: u64,)
    {
        let e0: u64 = index; let e1: u64 = marker; let e2: u64 = x2; let r: Vec<u64> = vec![3, 13, 2, e0, e1, e2]; super::note(r);
    }
    fn zeta13(z: u64, x1: u64, left: u64,)
    {
        let e0: u64 = z; let e1: u64 = x1; let e2: u64 = left; let r: Vec<u64> = vec![3, 13, 3, e0, e1, e2]; super::note(r);
    }
    fn reveal13(delegate: u64, super_: u64, b: u64,)
    {
        let e0: u64 = delegate; let e1: u64 = super_; let e2: u64 = b; let r: Vec<u64> = vec![3, 13, 4, e0, e1, e2]; super::note(r);
    }
    fn a13(x10: u64, right: u64, first: u64,)
    {
        let e0: u64 = x10; let e1: u64 = right; let e2: u64 = first; let r: Vec<u64> = vec![3, 13, 5, e0, e1, e2]; super::note(r);
    }
    fn Upper13(output: u64, operand_a: u64, lhs: u64,)
    {
        let e0: u64 = output; let e1: u64 = operand_a; let e2: u64 = lhs; let r: Vec<u64> = vec![3, 13, 6, e0, e1, e2]; super::note(r);
    }
    fn snake_case_name_of_a_method13(a: u64, second: u64, bits: u64,)
    {
        let e0: u64 = a; let e1: u64 = second; let e2: u64 = bits; let r: Vec<u64> = vec![3, 13, 7, e0, e1, e2]; super::note(r);
    }
    fn new13(operand_b: u64, rhs: u64, rng: u64,)
    {
        let e0: u64 = operand_b; let e1: u64 = rhs; let e2: u64 = rng; let r: Vec<u64> = vec![3, 13, 8, e0, e1, e2]; super::note(r);
    }
    fn delegate13(condition: u64, secret: u64, threshold: u64,)
    {
        let e0: u64 = condition; let e1: u64 = secret; let e2: u64 = threshold; let r: Vec<u64> = vec![3, 13, 9, e0, e1, e2]; super::note(r);
    }
    fn p13(elements: u64, protocol: u64, other: u64,)
    {
        let e0: u64 = elements; let e1: u64 = protocol; let e2: u64 = other; let r: Vec<u64> = vec![3, 13, 10, e0, e1, e2]; super::note(r);
    }
    fn multiply13(count: u64, index: u64, marker: u64,)
    {
        let e0: u64 = count; let e1: u64 = index; let e2: u64 = marker; let r: Vec<u64> = vec![3, 13, 11, e0, e1, e2]; super::note(r);
    }
}
impl Shape13Marker for Dele {
    type Marker = Delegate;
}
impl Shape13Delegate<'static, u8, Dele> for Dele {
    type Delegate = Worker13<'static, u8, Dele>;
}
impl Shape13Marker for Own {
    type Marker = OwnMarker;
}
impl Shape13Delegate<'static, u8, Own> for Own {
    type Delegate = Decoy13<'static, u8, Own>;
}
impl Shape13Impl<'static, u8, Own, OwnMarker> for Own {
    fn work13(secret: u64, threshold: u64, P: u64,)
    {
        let e0: u64 = secret; let e1: u64 = threshold; let e2: u64 = P; let r: Vec<u64> = vec![2, 13, 0, e0, e1, e2]; super::note(r);
    }
    fn apply13(protocol: u64, other: u64, args: u64,)
    {
        let e0: u64 = protocol; let e1: u64 = other; let e2: u64 = args; let r: Vec<u64> = vec![2, 13, 1, e0, e1, e2]; super::note(r);
    }
    fn begin13(index: u64, marker: u64, x2: u64,)
    {
        let e0: u64 = index; let e1: u64 = marker; let e2: u64 = x2; let r: Vec<u64> = vec![2, 13, 2, e0, e1, e2]; super::note(r);
    }
    fn zeta13(z: u64, x1: u64, left: u64,)
    {
        let e0: u64 = z; let e1: u64 = x1; let e2: u64 = left; let r: Vec<u64> = vec![2, 13, 3, e0, e1, e2]; super::note(r);
    }
    fn reveal13(delegate: u64, super_: u64, b: u64,)
    {
        let e0: u64 = delegate; let e1: u64 = super_; let e2: u64 = b; let r: Vec<u64> = vec![2, 13, 4, e0, e1, e2]; super::note(r);
    }
    fn a13(x10: u64, right: u64, first: u64,)
    {
        let e0: u64 = x10; let e1: u64 = right; let e2: u64 = first; let r: Vec<u64> = vec![2, 13, 5, e0, e1, e2]; super::note(r);
    }
    fn Upper13(output: u64, operand_a: u64, lhs: u64,)
    {
        let e0: u64 = output; let e1: u64 = operand_a; let e2: u64 = lhs; let r: Vec<u64> = vec![2, 13, 6, e0, e1, e2]; super::note(r);
    }
    fn snake_case_name_of_a_method13(a: u64, second: u64, bits: u64,)
    {
        let e0: u64 = a; let e1: u64 = second; let e2: u64 = bits; let r: Vec<u64> = vec![2, 13, 7, e0, e1, e2]; super::note(r);
    }
    fn new13(operand_b: u64, rhs: u64, rng: u64,)
    {
        let e0: u64 = operand_b; let e1: u64 = rhs; let e2: u64 = rng; let r: Vec<u64> = vec![2, 13, 8, e0, e1, e2]; super::note(r);
    }
    fn delegate13(condition: u64, secret: u64, threshold: u64,)
    {
        let e0: u64 = condition; let e1: u64 = secret; let e2: u64 = threshold; let r: Vec<u64> = vec![2, 13, 9, e0, e1, e2]; super::note(r);
    }
    fn p13(elements: u64, protocol: u64, other: u64,)
    {
        let e0: u64 = elements; let e1: u64 = protocol; let e2: u64 = other; let r: Vec<u64> = vec![2, 13, 10, e0, e1, e2]; super::note(r);
    }
    fn multiply13(count: u64, index: u64, marker: u64,)
    {
        let e0: u64 = count; let e1: u64 = index; let e2: u64 = marker; let r: Vec<u64> = vec![2, 13, 11, e0, e1, e2]; super::note(r);
    }
}
fn call13_0<X: Shape13<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 13, 0, v0 as u64, v1 as u64, v2 as u64];
    let got: () = <X as Shape13<'static, u8, X>>::work13(v0 as u64, v1 as u64, v2 as u64); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call13_1<X: Shape13<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 13, 1, v0 as u64, v1 as u64, v2 as u64];
    let got: () = <X as Shape13<'static, u8, X>>::apply13(v0 as u64, v1 as u64, v2 as u64); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call13_2<X: Shape13<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 13, 2, v0 as u64, v1 as u64, v2 as u64];
    let got: () = <X as Shape13<'static, u8, X>>::begin13(v0 as u64, v1 as u64, v2 as u64); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call13_3<X: Shape13<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 13, 3, v0 as u64, v1 as u64, v2 as u64];
    let got: () = <X as Shape13<'static, u8, X>>::zeta13(v0 as u64, v1 as u64, v2 as u64); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call13_4<X: Shape13<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 13, 4, v0 as u64, v1 as u64, v2 as u64];
    let got: () = <X as Shape13<'static, u8, X>>::reveal13(v0 as u64, v1 as u64, v2 as u64); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call13_5<X: Shape13<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 13, 5, v0 as u64, v1 as u64, v2 as u64];
    let got: () = <X as Shape13<'static, u8, X>>::a13(v0 as u64, v1 as u64, v2 as u64); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call13_6<X: Shape13<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 13, 6, v0 as u64, v1 as u64, v2 as u64];
    let got: () = <X as Shape13<'static, u8, X>>::Upper13(v0 as u64, v1 as u64, v2 as u64); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call13_7<X: Shape13<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 13, 7, v0 as u64, v1 as u64, v2 as u64];
    let got: () = <X as Shape13<'static, u8, X>>::snake_case_name_of_a_method13(v0 as u64, v1 as u64, v2 as u64); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call13_8<X: Shape13<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 13, 8, v0 as u64, v1 as u64, v2 as u64];
    let got: () = <X as Shape13<'static, u8, X>>::new13(v0 as u64, v1 as u64, v2 as u64); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call13_9<X: Shape13<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 13, 9, v0 as u64, v1 as u64, v2 as u64];
    let got: () = <X as Shape13<'static, u8, X>>::delegate13(v0 as u64, v1 as u64, v2 as u64); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call13_10<X: Shape13<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 13, 10, v0 as u64, v1 as u64, v2 as u64];
    let got: () = <X as Shape13<'static, u8, X>>::p13(v0 as u64, v1 as u64, v2 as u64); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call13_11<X: Shape13<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 13, 11, v0 as u64, v1 as u64, v2 as u64];
    let got: () = <X as Shape13<'static, u8, X>>::multiply13(v0 as u64, v1 as u64, v2 as u64); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
/// ref, ref
#[delegatable_protocol]
trait Shape14<T, P, S>
where
    P: Log,
    S: IntoIterator<Item = T>,
    T: Into<u64>
{
    fn work14(rng0: &u8, protocol1: &u8);
    /// documented
    fn apply14(protocol0: &u8, lhs1: &u8);
}
pub struct Worker14<T, P, S>(PhantomData<T>, PhantomData<P>, PhantomData<S>);
impl<T, P, S> Shape14<T, P, S> for Worker14<T, P, S>
where
    P: Log,
    S: IntoIterator<Item = T>,
    T: Into<u64>
{
    fn work14(rng0: &u8, protocol1: &u8)
    {
        let e0: u64 = *rng0 as u64; let e1: u64 = *protocol1 as u64; let r: Vec<u64> = vec![1, 14, 0, e0, e1]; super::note(r);
    }
    fn apply14(protocol0: &u8, lhs1: &u8)
    {
        let e0: u64 = *protocol0 as u64; let e1: u64 = *lhs1 as u64; let r: Vec<u64> = vec![1, 14, 1, e0, e1]; super::note(r);
    }
}
pub struct Decoy14<T, P, S>(PhantomData<T>, PhantomData<P>, PhantomData<S>);
impl<T, P, S> Shape14<T, P, S> for Decoy14<T, P, S>
where
    P: Log,
    S: IntoIterator<Item = T>,
    T: Into<u64>
{
    fn work14(rng0: &u8, protocol1: &u8)
    {
        let e0: u64 = *rng0 as u64; let e1: u64 = *protocol1 as u64; let r: Vec<u64> = vec![3, 14, 0, e0, e1]; super::note(r);
    }
    fn apply14(protocol0: &u8, lhs1: &u8)
    {
        let e0: u64 = *protocol0 as u64; let e1: u64 = *lhs1 as u64; let r: Vec<u64> = vec![3, 14, 1, e0, e1]; super::note(r);
    }
}
impl Shape14Marker for Dele {
    type Marker = Delegate;
}
impl Shape14Delegate<u8, Dele, Vec<u8>> for Dele {
    type Delegate = Worker14<u8, Dele, Vec<u8>>;
}
impl Shape14Marker for Own {
    type Marker = OwnMarker;
}
impl Shape14Delegate<u8, Own, Vec<u8>> for Own {
    type Delegate = Decoy14<u8, Own, Vec<u8>>;
}
impl Shape14Impl<u8, Own, Vec<u8>, OwnMarker> for Own {
    fn work14(rng0: &u8, protocol1: &u8)
    {
        let e0: u64 = *rng0 as u64; let e1: u64 = *protocol1 as u64; let r: Vec<u64> = vec![2, 14, 0, e0, e1]; super::note(r);
    }
    fn apply14(protocol0: &u8, lhs1: &u8)
    {
        let e0: u64 = *protocol0 as u64; let e1: u64 = *lhs1 as u64; let r: Vec<u64> = vec![2, 14, 1, e0, e1]; super::note(r);
    }
}
fn call14_0<X: Shape14<u8, X, Vec<u8>> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 14, 0, v0 as u64, v1 as u64];
    let got: () = <X as Shape14<u8, X, Vec<u8>>>::work14(&v0, &v1); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call14_1<X: Shape14<u8, X, Vec<u8>> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 14, 1, v0 as u64, v1 as u64];
    let got: () = <X as Shape14<u8, X, Vec<u8>>>::apply14(&v0, &v1); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
/// ref, ref
#[delegatable_protocol]
pub(crate) trait Shape15<Marked, Other, P>
where
    P: Log,
    Marked: Copy,
    Other: Copy,
{
    fn work15(rng: &u8, values: &u8,) -> Vec<u64>;
    /// documented
    fn apply15(threshold: &u8, P: &u8,) -> Vec<u64>;
    fn begin15(other: &u8, args: &u8,) -> Vec<u64>;
    fn offset() -> u64 {
        1000
    }
    fn twice15() -> u64 {
        Self::offset() * 2
    }
}
pub struct Worker15<Marked, Other, P>(PhantomData<Marked>, PhantomData<Other>, PhantomData<P>);
impl<Marked, Other, P> Shape15<Marked, Other, P> for Worker15<Marked, Other, P>
where
    P: Log,
    Marked: Copy,
    Other: Copy,
{
    fn work15(rng: &u8, values: &u8,) -> Vec<u64>
    {
        let e0: u64 = *rng as u64; let e1: u64 = *values as u64; let r: Vec<u64> = vec![1, 15, 0, e0, e1]; r
    }
    fn apply15(threshold: &u8, P: &u8,) -> Vec<u64>
    {
        let e0: u64 = *threshold as u64; let e1: u64 = *P as u64; let r: Vec<u64> = vec![1, 15, 1, e0, e1]; r
    }
    fn begin15(other: &u8, args: &u8,) -> Vec<u64>
    {
        let e0: u64 = *other as u64; let e1: u64 = *args as u64; let r: Vec<u64> = vec![1, 15, 2, e0, e1]; r
    }
}
pub struct Decoy15<Marked, Other, P>(PhantomData<Marked>, PhantomData<Other>, PhantomData<P>);
impl<Marked, Other, P> Shape15<Marked, Other, P> for Decoy15<Marked, Other, P>
where
    P: Log,
    Marked: Copy,
    Other: Copy,
{
    fn work15(rng: &u8, values: &u8,) -> Vec<u64>
    {
        let e0: u64 = *rng as u64; let e1: u64 = *values as u64; let r: Vec<u64> = vec![3, 15, 0, e0, e1]; r
    }
    fn apply15(threshold: &u8, P: &u8,) -> Vec<u64>
    {
        let e0: u64 = *threshold as u64; let e1: u64 = *P as u64; let r: Vec<u64> = vec![3, 15, 1, e0, e1]; r
    }
    fn begin15(other: &u8, args: &u8,) -> Vec<u64>
    {
        let e0: u64 = *other as u64; let e1: u64 = *args as u64; let r: Vec<u64> = vec![3, 15, 2, e0, e1]; r
    }
}
impl Shape15Marker for Dele {
    type Marker = Delegate;
}
impl Shape15Delegate<u8, u16, Dele> for Dele {
    type Delegate = Worker15<u8, u16, Dele>;
}
impl Shape15Marker for Own {
    type Marker = OwnMarker;
}
impl Shape15Delegate<u8, u16, Own> for Own {
    type Delegate = Decoy15<u8, u16, Own>;
}
impl Shape15Impl<u8, u16, Own, OwnMarker> for Own {
    fn work15(rng: &u8, values: &u8,) -> Vec<u64>
    {
        let e0: u64 = *rng as u64; let e1: u64 = *values as u64; let r: Vec<u64> = vec![2, 15, 0, e0, e1]; r
    }
    fn apply15(threshold: &u8, P: &u8,) -> Vec<u64>
    {
        let e0: u64 = *threshold as u64; let e1: u64 = *P as u64; let r: Vec<u64> = vec![2, 15, 1, e0, e1]; r
    }
    fn begin15(other: &u8, args: &u8,) -> Vec<u64>
    {
        let e0: u64 = *other as u64; let e1: u64 = *args as u64; let r: Vec<u64> = vec![2, 15, 2, e0, e1]; r
    }
}
fn call15_0<X: Shape15<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 15, 0, v0 as u64, v1 as u64];
    let got = <X as Shape15<u8, u16, X>>::work15(&v0, &v1);
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call15_1<X: Shape15<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 15, 1, v0 as u64, v1 as u64];
    let got = <X as Shape15<u8, u16, X>>::apply15(&v0, &v1);
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call15_2<X: Shape15<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 15, 2, v0 as u64, v1 as u64];
    let got = <X as Shape15<u8, u16, X>>::begin15(&v0, &v1);
    super::same("the result", &got, &want)?;
    Ok(())
}
fn default15<X: Shape15<u8, u16, X>+ Log + Send + Sync + 'static>(_: &[u8], _: u64) -> Outcome
{
    super::same("a default method", &<X as Shape15<u8, u16, X>>::twice15(), &2000)
}
/// ref, ref, ref, ref
#[delegatable_protocol]
pub(crate) trait Shape16<A, B, C, D, E, F, G, P>
where
    P: Log
{
    fn work16(rng0: &u8, protocol1: &u8, lhs2: &u8, rhs3: &u8,) -> Vec<u64>;
    /// documented
    fn apply16(protocol0: &u8, lhs1: &u8, rhs2: &u8, x3: &u8,) -> Vec<u64>;
    fn begin16(lhs0: &u8, rhs1: &u8, x2: &u8, value_3: &u8,) -> Vec<u64>;
    fn offset() -> u64 {
        1000
    }
    fn twice16() -> u64 {
        Self::offset() * 2
    }
}
pub struct Worker16<A, B, C, D, E, F, G, P>(PhantomData<A>, PhantomData<B>, PhantomData<C>, PhantomData<D>, PhantomData<E>, PhantomData<F>, PhantomData<G>, PhantomData<P>);
impl<A, B, C, D, E, F, G, P> Shape16<A, B, C, D, E, F, G, P> for Worker16<A, B, C, D, E, F, G, P>
where
    P: Log
{
    fn work16(rng0: &u8, protocol1: &u8, lhs2: &u8, rhs3: &u8,) -> Vec<u64>
    {
        let e0: u64 = *rng0 as u64; let e1: u64 = *protocol1 as u64; let e2: u64 = *lhs2 as u64; let e3: u64 = *rhs3 as u64; let r: Vec<u64> = vec![1, 16, 0, e0, e1, e2, e3]; r
    }
    fn apply16(protocol0: &u8, lhs1: &u8, rhs2: &u8, x3: &u8,) -> Vec<u64>
    {
        let e0: u64 = *protocol0 as u64; let e1: u64 = *lhs1 as u64; let e2: u64 = *rhs2 as u64; let e3: u64 = *x3 as u64; let r: Vec<u64> = vec![1, 16, 1, e0, e1, e2, e3]; r
    }
    fn begin16(lhs0: &u8, rhs1: &u8, x2: &u8, value_3: &u8,) -> Vec<u64>
    {
        let e0: u64 = *lhs0 as u64; let e1: u64 = *rhs1 as u64; let e2: u64 = *x2 as u64; let e3: u64 = *value_3 as u64; let r: Vec<u64> = vec![1, 16, 2, e0, e1, e2, e3]; r
    }
}
pub struct Decoy16<A, B, C, D, E, F, G, P>(PhantomData<A>, PhantomData<B>, PhantomData<C>, PhantomData<D>, PhantomData<E>, PhantomData<F>, PhantomData<G>, PhantomData<P>);
impl<A, B, C, D, E, F, G, P> Shape16<A, B, C, D, E, F, G, P> for Decoy16<A, B, C, D, E, F, G, P>
where
    P: Log
{
    fn work16(rng0: &u8, protocol1: &u8, lhs2: &u8, rhs3: &u8,) -> Vec<u64>
    {
        let e0: u64 = *rng0 as u64; let e1: u64 = *protocol1 as u64; let e2: u64 = *lhs2 as u64; let e3: u64 = *rhs3 as u64; let r: Vec<u64> = vec![3, 16, 0, e0, e1, e2, e3]; r
    }
    fn apply16(protocol0: &u8, lhs1: &u8, rhs2: &u8, x3: &u8,) -> Vec<u64>
    {
        let e0: u64 = *protocol0 as u64; let e1: u64 = *lhs1 as u64; let e2: u64 = *rhs2 as u64; let e3: u64 = *x3 as u64; let r: Vec<u64> = vec![3, 16, 1, e0, e1, e2, e3]; r
    }
    fn begin16(lhs0: &u8, rhs1: &u8, x2: &u8, value_3: &u8,) -> Vec<u64>
    {
        let e0: u64 = *lhs0 as u64; let e1: u64 = *rhs1 as u64; let e2: u64 = *x2 as u64; let e3: u64 = *value_3 as u64; let r: Vec<u64> = vec![3, 16, 2, e0, e1, e2, e3]; r
    }
}
impl Shape16Marker for Dele {
    type Marker = Delegate;
}
impl Shape16Delegate<u8, u16, u32, u64, i8, i16, i32, Dele> for Dele {
    type Delegate = Worker16<u8, u16, u32, u64, i8, i16, i32, Dele>;
}
impl Shape16Marker for Own {
    type Marker = OwnMarker;
}
impl Shape16Delegate<u8, u16, u32, u64, i8, i16, i32, Own> for Own {
    type Delegate = Decoy16<u8, u16, u32, u64, i8, i16, i32, Own>;
}
impl Shape16Impl<u8, u16, u32, u64, i8, i16, i32, Own, OwnMarker> for Own {
    fn work16(rng0: &u8, protocol1: &u8, lhs2: &u8, rhs3: &u8,) -> Vec<u64>
    {
        let e0: u64 = *rng0 as u64; let e1: u64 = *protocol1 as u64; let e2: u64 = *lhs2 as u64; let e3: u64 = *rhs3 as u64; let r: Vec<u64> = vec![2, 16, 0, e0, e1, e2, e3]; r
    }
    fn apply16(protocol0: &u8, lhs1: &u8, rhs2: &u8, x3: &u8,) -> Vec<u64>
    {
        let e0: u64 = *protocol0 as u64; let e1: u64 = *lhs1 as u64; let e2: u64 = *rhs2 as u64; let e3: u64 = *x3 as u64; let r: Vec<u64> = vec![2, 16, 1, e0, e1, e2, e3]; r
    }
    fn begin16(lhs0: &u8, rhs1: &u8, x2: &u8, value_3: &u8,) -> Vec<u64>
    {
        let e0: u64 = *lhs0 as u64; let e1: u64 = *rhs1 as u64; let e2: u64 = *x2 as u64; let e3: u64 = *value_3 as u64; let r: Vec<u64> = vec![2, 16, 2, e0, e1, e2, e3]; r
    }
}
fn call16_0<X: Shape16<u8, u16, u32, u64, i8, i16, i32, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3];
    let want: Vec<u64> = vec![tag, 16, 0, v0 as u64, v1 as u64, v2 as u64, v3 as u64];
    let got = <X as Shape16<u8, u16, u32, u64, i8, i16, i32, X>>::work16(&v0, &v1, &v2, &v3);
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call16_1<X: Shape16<u8, u16, u32, u64, i8, i16, i32, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3];
    let want: Vec<u64> = vec![tag, 16, 1, v0 as u64, v1 as u64, v2 as u64, v3 as u64];
    let got = <X as Shape16<u8, u16, u32, u64, i8, i16, i32, X>>::apply16(&v0, &v1, &v2, &v3);
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call16_2<X: Shape16<u8, u16, u32, u64, i8, i16, i32, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3];
    let want: Vec<u64> = vec![tag, 16, 2, v0 as u64, v1 as u64, v2 as u64, v3 as u64];
    let got = <X as Shape16<u8, u16, u32, u64, i8, i16, i32, X>>::begin16(&v0, &v1, &v2, &v3);
    super::same("the result", &got, &want)?;
    Ok(())
}
fn default16<X: Shape16<u8, u16, u32, u64, i8, i16, i32, X>+ Log + Send + Sync + 'static>(_: &[u8], _: u64) -> Outcome
{
    super::same("a default method", &<X as Shape16<u8, u16, u32, u64, i8, i16, i32, X>>::twice16(), &2000)
}
/// ref, ref, ref, ref
#[delegatable_protocol]
pub trait Shape17<T, S, P,>
where
    P: Log + Send,
    T: Send,
    S: Send
{
    fn work17<'a>(shares: &u8, z: &u8, x1: &u8, left: &u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
}
pub struct Worker17<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape17<T, S, P> for Worker17<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send
{
    fn work17<'a>(shares: &u8, z: &u8, x1: &u8, left: &u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *shares as u64; let e1: u64 = *z as u64; let e2: u64 = *x1 as u64; let e3: u64 = *left as u64; let r: Vec<u64> = vec![1, 17, 0, e0, e1, e2, e3]; Box::pin(async move { r })
    }
}
pub struct Decoy17<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape17<T, S, P> for Decoy17<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send
{
    fn work17<'a>(shares: &u8, z: &u8, x1: &u8, left: &u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *shares as u64; let e1: u64 = *z as u64; let e2: u64 = *x1 as u64; let e3: u64 = *left as u64; let r: Vec<u64> = vec![3, 17, 0, e0, e1, e2, e3]; Box::pin(async move { r })
    }
}
impl Shape17Marker for Dele {
    type Marker = Delegate;
}
impl Shape17Delegate<u8, u16, Dele> for Dele {
    type Delegate = Worker17<u8, u16, Dele>;
}
impl Shape17Marker for Own {
    type Marker = OwnMarker;
}
impl Shape17Delegate<u8, u16, Own> for Own {
    type Delegate = Decoy17<u8, u16, Own>;
}
impl Shape17Impl<u8, u16, Own, OwnMarker> for Own {
    fn work17<'a>(shares: &u8, z: &u8, x1: &u8, left: &u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *shares as u64; let e1: u64 = *z as u64; let e2: u64 = *x1 as u64; let e3: u64 = *left as u64; let r: Vec<u64> = vec![2, 17, 0, e0, e1, e2, e3]; Box::pin(async move { r })
    }
}
fn call17_0<X: Shape17<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3];
    let want: Vec<u64> = vec![tag, 17, 0, v0 as u64, v1 as u64, v2 as u64, v3 as u64];
    let got = block_on(<X as Shape17<u8, u16, X>>::work17(&v0, &v1, &v2, &v3));
    super::same("the result", &got, &want)?;
    Ok(())
}
/// reflt, ref, reflt
#[delegatable_protocol]
pub trait Shape18<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send,
{
    fn work18<'a>(rng0: &'a u8, protocol1: &u8, lhs2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    /// documented
    fn apply18<'a>(protocol0: &'a u8, lhs1: &u8, rhs2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    fn begin18<'a>(lhs0: &'a u8, rhs1: &u8, x2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    /// documented
    fn zeta18<'a>(rhs0: &'a u8, x1: &u8, value_2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    fn reveal18<'a>(x0: &'a u8, value_1: &u8, item2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    /// documented
    fn a18<'a>(value_0: &'a u8, item1: &u8, _unused2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    fn Upper18<'a>(item0: &'a u8, _unused1: &u8, self_2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    /// documented
    fn snake_case_name_of_a_method18<'a>(_unused0: &'a u8, self_1: &u8, r#type2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    fn new18<'a>(self_0: &'a u8, r#type1: &u8, rng2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    /// documented
    fn delegate18<'a>(r#type0: &'a u8, rng1: &u8, protocol2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    fn p18<'a>(rng0: &'a u8, protocol1: &u8, lhs2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    /// documented
    fn multiply18<'a>(protocol0: &'a u8, lhs1: &u8, rhs2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
}
pub struct Worker18<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape18<T, S, P> for Worker18<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send,
{
    fn work18<'a>(rng0: &'a u8, protocol1: &u8, lhs2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *rng0 as u64; let e1: u64 = *protocol1 as u64; let e2: u64 = *lhs2 as u64; let r: Vec<u64> = vec![1, 18, 0, e0, e1, e2]; Box::pin(async move { r })
    }
    fn apply18<'a>(protocol0: &'a u8, lhs1: &u8, rhs2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *protocol0 as u64; let e1: u64 = *lhs1 as u64; let e2: u64 = *rhs2 as u64; let r: Vec<u64> = vec![1, 18, 1, e0, e1, e2]; Box::pin(async move { r })
    }
    fn begin18<'a>(lhs0: &'a u8, rhs1: &u8, x2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *lhs0 as u64; let e1: u64 = *rhs1 as u64; let e2: u64 = *x2 as u64; let r: Vec<u64> = vec![1, 18, 2, e0, e1, e2]; Box::pin(async move { r })
    }
    fn zeta18<'a>(rhs0: &'a u8, x1: &u8, value_2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *rhs0 as u64; let e1: u64 = *x1 as u64; let e2: u64 = *value_2 as u64; let r: Vec<u64> = vec![1, 18, 3, e0, e1, e2]; Box::pin(async move { r })
    }
    fn reveal18<'a>(x0: &'a u8, value_1: &u8, item2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *x0 as u64; let e1: u64 = *value_1 as u64; let e2: u64 = *item2 as u64; let r: Vec<u64> = vec![1, 18, 4, e0, e1, e2]; Box::pin(async move { r })
    }
    fn a18<'a>(value_0: &'a u8, item1: &u8, _unused2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *value_0 as u64; let e1: u64 = *item1 as u64; let e2: u64 = *_unused2 as u64; let r: Vec<u64> = vec![1, 18, 5, e0, e1, e2]; Box::pin(async move { r })
    }
    fn Upper18<'a>(item0: &'a u8, _unused1: &u8, self_2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *item0 as u64; let e1: u64 = *_unused1 as u64; let e2: u64 = *self_2 as u64; let r: Vec<u64> = vec![1, 18, 6, e0, e1, e2]; Box::pin(async move { r })
    }
    fn snake_case_name_of_a_method18<'a>(_unused0: &'a u8, self_1: &u8, r#type2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *_unused0 as u64; let e1: u64 = *self_1 as u64; let e2: u64 = *r#type2 as u64; let r: Vec<u64> = vec![1, 18, 7, e0, e1, e2]; Box::pin(async move { r })
    }
    fn new18<'a>(self_0: &'a u8, r#type1: &u8, rng2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *self_0 as u64; let e1: u64 = *r#type1 as u64; let e2: u64 = *rng2 as u64; let r: Vec<u64> = vec![1, 18, 8, e0, e1, e2]; Box::pin(async move { r })
    }
    fn delegate18<'a>(r#type0: &'a u8, rng1: &u8, protocol2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *r#type0 as u64; let e1: u64 = *rng1 as u64; let e2: u64 = *protocol2 as u64; let r: Vec<u64> = vec![1, 18, 9, e0, e1, e2]; Box::pin(async move { r })
    }
    fn p18<'a>(rng0: &'a u8, protocol1: &u8, lhs2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *rng0 as u64; let e1: u64 = *protocol1 as u64; let e2: u64 = *lhs2 as u64; let r: Vec<u64> = vec![1, 18, 10, e0, e1, e2]; Box::pin(async move { r })
    }
    fn multiply18<'a>(protocol0: &'a u8, lhs1: &u8, rhs2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *protocol0 as u64; let e1: u64 = *lhs1 as u64; let e2: u64 = *rhs2 as u64; let r: Vec<u64> = vec![1, 18, 11, e0, e1, e2]; Box::pin(async move { r })
    }
}
pub struct Decoy18<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape18<T, S, P> for Decoy18<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send,
{
    fn work18<'a>(rng0: &'a u8, protocol1: &u8, lhs2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *rng0 as u64; let e1: u64 = *protocol1 as u64; let e2: u64 = *lhs2 as u64; let r: Vec<u64> = vec![3, 18, 0, e0, e1, e2]; Box::pin(async move { r })
    }
    fn apply18<'a>(protocol0: &'a u8, lhs1: &u8, rhs2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *protocol0 as u64; let e1: u64 = *lhs1 as u64; let e2: u64 = *rhs2 as u64; let r: Vec<u64> = vec![3, 18, 1, e0, e1, e2]; Box::pin(async move { r })
    }
    fn begin18<'a>(lhs0: &'a u8, rhs1: &u8, x2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *lhs0 as u64; let e1: u64 = *rhs1 as u64; let e2: u64 = *x2 as u64; let r: Vec<u64> = vec![3, 18, 2, e0, e1, e2]; Box::pin(async move { r })
    }
    fn zeta18<'a>(rhs0: &'a u8, x1: &u8, value_2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *rhs0 as u64; let e1: u64 = *x1 as u64; let e2: u64 = *value_2 as u64; let r: Vec<u64> = vec![3, 18, 3, e0, e1, e2]; Box::pin(async move { r })
    }
    fn reveal18<'a>(x0: &'a u8, value_1: &u8, item2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *x0 as u64; let e1: u64 = *value_1 as u64; let e2: u64 = *item2 as u64; let r: Vec<u64> = vec![3, 18, 4, e0, e1, e2]; Box::pin(async move { r })
    }
    fn a18<'a>(value_0: &'a u8, item1: &u8, _unused2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *value_0 as u64; let e1: u64 = *item1 as u64; let e2: u64 = *_unused2 as u64; let r: Vec<u64> = vec![3, 18, 5, e0, e1, e2]; Box::pin(async move { r })
    }
    fn Upper18<'a>(item0: &'a u8, _unused1: &u8, self_2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *item0 as u64; let e1: u64 = *_unused1 as u64; let e2: u64 = *self_2 as u64; let r: Vec<u64> = vec![3, 18, 6, e0, e1, e2]; Box::pin(async move { r })
    }
    fn snake_case_name_of_a_method18<'a>(_unused0: &'a u8, self_1: &u8, r#type2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *_unused0 as u64; let e1: u64 = *self_1 as u64; let e2: u64 = *r#type2 as u64; let r: Vec<u64> = vec![3, 18, 7, e0, e1, e2]; Box::pin(async move { r })
    }
    fn new18<'a>(self_0: &'a u8, r#type1: &u8, rng2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *self_0 as u64; let e1: u64 = *r#type1 as u64; let e2: u64 = *rng2 as u64; let r: Vec<u64> = vec![3, 18, 8, e0, e1, e2]; Box::pin(async move { r })
    }
    fn delegate18<'a>(r#type0: &'a u8, rng1: &u8, protocol2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *r#type0 as u64; let e1: u64 = *rng1 as u64; let e2: u64 = *protocol2 as u64; let r: Vec<u64> = vec![3, 18, 9, e0, e1, e2]; Box::pin(async move { r })
    }
    fn p18<'a>(rng0: &'a u8, protocol1: &u8, lhs2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *rng0 as u64; let e1: u64 = *protocol1 as u64; let e2: u64 = *lhs2 as u64; let r: Vec<u64> = vec![3, 18, 10, e0, e1, e2]; Box::pin(async move { r })
    }
    fn multiply18<'a>(protocol0: &'a u8, lhs1: &u8, rhs2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *protocol0 as u64; let e1: u64 = *lhs1 as u64; let e2: u64 = *rhs2 as u64; let r: Vec<u64> = vec![3, 18, 11, e0, e1, e2]; Box::pin(async move { r })
    }
}
impl Shape18Marker for Dele {
    type Marker = Delegate;
}
impl Shape18Delegate<u8, u16, Dele> for Dele {
    type Delegate = Worker18<u8, u16, Dele>;
}
impl Shape18Marker for Own {
    type Marker = OwnMarker;
}
impl Shape18Delegate<u8, u16, Own> for Own {
    type Delegate = Decoy18<u8, u16, Own>;
}
impl Shape18Impl<u8, u16, Own, OwnMarker> for Own {
    fn work18<'a>(rng0: &'a u8, protocol1: &u8, lhs2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *rng0 as u64; let e1: u64 = *protocol1 as u64; let e2: u64 = *lhs2 as u64; let r: Vec<u64> = vec![2, 18, 0, e0, e1, e2]; Box::pin(async move { r })
    }
    fn apply18<'a>(protocol0: &'a u8, lhs1: &u8, rhs2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *protocol0 as u64; let e1: u64 = *lhs1 as u64; let e2: u64 = *rhs2 as u64; let r: Vec<u64> = vec![2, 18, 1, e0, e1, e2]; Box::pin(async move { r })
    }
    fn begin18<'a>(lhs0: &'a u8, rhs1: &u8, x2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *lhs0 as u64; let e1: u64 = *rhs1 as u64; let e2: u64 = *x2 as u64; let r: Vec<u64> = vec![2, 18, 2, e0, e1, e2]; Box::pin(async move { r })
    }
    fn zeta18<'a>(rhs0: &'a u8, x1: &u8, value_2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *rhs0 as u64; let e1: u64 = *x1 as u64; let e2: u64 = *value_2 as u64; let r: Vec<u64> = vec![2, 18, 3, e0, e1, e2]; Box::pin(async move { r })
    }
    fn reveal18<'a>(x0: &'a u8, value_1: &u8, item2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *x0 as u64; let e1: u64 = *value_1 as u64; let e2: u64 = *item2 as u64; let r: Vec<u64> = vec![2, 18, 4, e0, e1, e2]; Box::pin(async move { r })
    }
    fn a18<'a>(value_0: &'a u8, item1: &u8, _unused2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *value_0 as u64; let e1: u64 = *item1 as u64; let e2: u64 = *_unused2 as u64; let r: Vec<u64> = vec![2, 18, 5, e0, e1, e2]; Box::pin(async move { r })
    }
    fn Upper18<'a>(item0: &'a u8, _unused1: &u8, self_2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *item0 as u64; let e1: u64 = *_unused1 as u64; let e2: u64 = *self_2 as u64; let r: Vec<u64> = vec![2, 18, 6, e0, e1, e2]; Box::pin(async move { r })
    }
    fn snake_case_name_of_a_method18<'a>(_unused0: &'a u8, self_1: &u8, r#type2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *_unused0 as u64; let e1: u64 = *self_1 as u64; let e2: u64 = *r#type2 as u64; let r: Vec<u64> = vec![2, 18, 7, e0, e1, e2]; Box::pin(async move { r })
    }
    fn new18<'a>(self_0: &'a u8, r#type1: &u8, rng2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *self_0 as u64; let e1: u64 = *r#type1 as u64; let e2: u64 = *rng2 as u64; let r: Vec<u64> = vec![2, 18, 8, e0, e1, e2]; Box::pin(async move { r })
    }
    fn delegate18<'a>(r#type0: &'a u8, rng1: &u8, protocol2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *r#type0 as u64; let e1: u64 = *rng1 as u64; let e2: u64 = *protocol2 as u64; let r: Vec<u64> = vec![2, 18, 9, e0, e1, e2]; Box::pin(async move { r })
    }
    fn p18<'a>(rng0: &'a u8, protocol1: &u8, lhs2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *rng0 as u64; let e1: u64 = *protocol1 as u64; let e2: u64 = *lhs2 as u64; let r: Vec<u64> = vec![2, 18, 10, e0, e1, e2]; Box::pin(async move { r })
    }
    fn multiply18<'a>(protocol0: &'a u8, lhs1: &u8, rhs2: &'a u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = *protocol0 as u64; let e1: u64 = *lhs1 as u64; let e2: u64 = *rhs2 as u64; let r: Vec<u64> = vec![2, 18, 11, e0, e1, e2]; Box::pin(async move { r })
    }
}
fn call18_0<X: Shape18<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 18, 0, v0 as u64, v1 as u64, v2 as u64];
    let got = block_on(<X as Shape18<u8, u16, X>>::work18(&v0, &v1, &v2));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call18_1<X: Shape18<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 18, 1, v0 as u64, v1 as u64, v2 as u64];
    let got = block_on(<X as Shape18<u8, u16, X>>::apply18(&v0, &v1, &v2));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call18_2<X: Shape18<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 18, 2, v0 as u64, v1 as u64, v2 as u64];
    let got = block_on(<X as Shape18<u8, u16, X>>::begin18(&v0, &v1, &v2));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call18_3<X: Shape18<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 18, 3, v0 as u64, v1 as u64, v2 as u64];
    let got = block_on(<X as Shape18<u8, u16, X>>::zeta18(&v0, &v1, &v2));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call18_4<X: Shape18<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 18, 4, v0 as u64, v1 as u64, v2 as u64];
    let got = block_on(<X as Shape18<u8, u16, X>>::reveal18(&v0, &v1, &v2));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call18_5<X: Shape18<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 18, 5, v0 as u64, v1 as u64, v2 as u64];
    let got = block_on(<X as Shape18<u8, u16, X>>::a18(&v0, &v1, &v2));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call18_6<X: Shape18<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 18, 6, v0 as u64, v1 as u64, v2 as u64];
    let got = block_on(<X as Shape18<u8, u16, X>>::Upper18(&v0, &v1, &v2));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call18_7<X: Shape18<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 18, 7, v0 as u64, v1 as u64, v2 as u64];
    let got = block_on(<X as Shape18<u8, u16, X>>::snake_case_name_of_a_method18(&v0, &v1, &v2));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call18_8<X: Shape18<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 18, 8, v0 as u64, v1 as u64, v2 as u64];
    let got = block_on(<X as Shape18<u8, u16, X>>::new18(&v0, &v1, &v2));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call18_9<X: Shape18<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 18, 9, v0 as u64, v1 as u64, v2 as u64];
    let got = block_on(<X as Shape18<u8, u16, X>>::delegate18(&v0, &v1, &v2));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call18_10<X: Shape18<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 18, 10, v0 as u64, v1 as u64, v2 as u64];
    let got = block_on(<X as Shape18<u8, u16, X>>::p18(&v0, &v1, &v2));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call18_11<X: Shape18<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 18, 11, v0 as u64, v1 as u64, v2 as u64];
    let got = block_on(<X as Shape18<u8, u16, X>>::multiply18(&v0, &v1, &v2));
    super::same("the result", &got, &want)?;
    Ok(())
}
/// reflt, ref, reflt
#[delegatable_protocol]
trait Shape19<P,>
where
    P: Log,
{
    fn work19<'a>(index: &'a u8, marker: &u8, x2: &'a u8) -> Result<Vec<u64>, String>;
    /// documented
    fn apply19<'a>(z: &'a u8, x1: &u8, left: &'a u8) -> Result<Vec<u64>, String>;
}
pub struct Worker19<P>(PhantomData<P>);
impl<P> Shape19<P> for Worker19<P>
where
    P: Log,
{
    fn work19<'a>(index: &'a u8, marker: &u8, x2: &'a u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = *index as u64; let e1: u64 = *marker as u64; let e2: u64 = *x2 as u64; let r: Vec<u64> = vec![1, 19, 0, e0, e1, e2]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply19<'a>(z: &'a u8, x1: &u8, left: &'a u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = *z as u64; let e1: u64 = *x1 as u64; let e2: u64 = *left as u64; let r: Vec<u64> = vec![1, 19, 1, e0, e1, e2]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
pub struct Decoy19<P>(PhantomData<P>);
impl<P> Shape19<P> for Decoy19<P>
where
    P: Log,
{
    fn work19<'a>(index: &'a u8, marker: &u8, x2: &'a u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = *index as u64; let e1: u64 = *marker as u64; let e2: u64 = *x2 as u64; let r: Vec<u64> = vec![3, 19, 0, e0, e1, e2]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply19<'a>(z: &'a u8, x1: &u8, left: &'a u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = *z as u64; let e1: u64 = *x1 as u64; let e2: u64 = *left as u64; let r: Vec<u64> = vec![3, 19, 1, e0, e1, e2]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
impl Shape19Marker for Dele {
    type Marker = Delegate;
}
impl Shape19Delegate<Dele> for Dele {
    type Delegate = Worker19<Dele>;
}
impl Shape19Marker for Own {
    type Marker = OwnMarker;
}
impl Shape19Delegate<Own> for Own {
    type Delegate = Decoy19<Own>;
}
impl Shape19Impl<Own, OwnMarker> for Own {
    fn work19<'a>(index: &'a u8, marker: &u8, x2: &'a u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = *index as u64; let e1: u64 = *marker as u64; let e2: u64 = *x2 as u64; let r: Vec<u64> = vec![2, 19, 0, e0, e1, e2]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply19<'a>(z: &'a u8, x1: &u8, left: &'a u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = *z as u64; let e1: u64 = *x1 as u64; let e2: u64 = *left as u64; let r: Vec<u64> = vec![2, 19, 1, e0, e1, e2]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
fn call19_0<X: Shape19<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 19, 0, v0 as u64, v1 as u64, v2 as u64];
    let got = <X as Shape19<X>>::work19(&v0, &v1, &v2);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call19_1<X: Shape19<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 19, 1, v0 as u64, v1 as u64, v2 as u64];
    let got = <X as Shape19<X>>::apply19(&v0, &v1, &v2);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
/// prot, ref, ref
#[delegatable_protocol]
trait Shape20<P>
where
    P: Log
{
    fn work20(rng0: &mut P, protocol1: &u8, lhs2: &u8) -> Result<Vec<u64>, String>;
    /// documented
    fn apply20(protocol0: &u8, lhs1: &u8, rhs2: &mut P) -> Result<Vec<u64>, String>;
}
pub struct Worker20<P>(PhantomData<P>);
impl<P> Shape20<P> for Worker20<P>
where
    P: Log
{
    fn work20(rng0: &mut P, protocol1: &u8, lhs2: &u8) -> Result<Vec<u64>, String>
    {
        let e1: u64 = *protocol1 as u64; let e2: u64 = *lhs2 as u64; let r: Vec<u64> = vec![1, 20, 0, e1, e2]; rng0.log(r.clone()); if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply20(protocol0: &u8, lhs1: &u8, rhs2: &mut P) -> Result<Vec<u64>, String>
    {
        let e0: u64 = *protocol0 as u64; let e1: u64 = *lhs1 as u64; let r: Vec<u64> = vec![1, 20, 1, e0, e1]; rhs2.log(r.clone()); if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
pub struct Decoy20<P>(PhantomData<P>);
impl<P> Shape20<P> for Decoy20<P>
where
    P: Log
{
    fn work20(rng0: &mut P, protocol1: &u8, lhs2: &u8) -> Result<Vec<u64>, String>
    {
        let e1: u64 = *protocol1 as u64; let e2: u64 = *lhs2 as u64; let r: Vec<u64> = vec![3, 20, 0, e1, e2]; rng0.log(r.clone()); if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply20(protocol0: &u8, lhs1: &u8, rhs2: &mut P) -> Result<Vec<u64>, String>
    {
        let e0: u64 = *protocol0 as u64; let e1: u64 = *lhs1 as u64; let r: Vec<u64> = vec![3, 20, 1, e0, e1]; rhs2.log(r.clone()); if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
impl Shape20Marker for Dele {
    type Marker = Delegate;
}
impl Shape20Delegate<Dele> for Dele {
    type Delegate = Worker20<Dele>;
}
impl Shape20Marker for Own {
    type Marker = OwnMarker;
}
impl Shape20Delegate<Own> for Own {
    type Delegate = Decoy20<Own>;
}
impl Shape20Impl<Own, OwnMarker> for Own {
    fn work20(rng0: &mut Own, protocol1: &u8, lhs2: &u8) -> Result<Vec<u64>, String>
    {
        let e1: u64 = *protocol1 as u64; let e2: u64 = *lhs2 as u64; let r: Vec<u64> = vec![2, 20, 0, e1, e2]; rng0.log(r.clone()); if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply20(protocol0: &u8, lhs1: &u8, rhs2: &mut Own) -> Result<Vec<u64>, String>
    {
        let e0: u64 = *protocol0 as u64; let e1: u64 = *lhs1 as u64; let r: Vec<u64> = vec![2, 20, 1, e0, e1]; rhs2.log(r.clone()); if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
fn call20_0<X: Shape20<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v1 = v[0]; let mut v2 = v[1];
    let want: Vec<u64> = vec![tag, 20, 0, v1 as u64, v2 as u64];
    let mut protocol = X::fresh();
    let got = <X as Shape20<X>>::work20(&mut protocol, &v1, &v2);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call20_1<X: Shape20<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 20, 1, v0 as u64, v1 as u64];
    let mut protocol = X::fresh();
    let got = <X as Shape20<X>>::apply20(&v0, &v1, &mut protocol);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
/// prot, ref, ref
#[delegatable_protocol]
pub(crate) trait Shape21<T, P, S>
where
    P: Log,
    S: IntoIterator<Item = T>,
    T: Into<u64>
{
    fn work21(other: &mut P, args: &u8, output: &u8,);
    /// documented
    fn apply21(marker: &u8, x2: &u8, a: &mut P,);
    fn begin21(x1: &mut P, left: &u8, operand_b: &u8,);
}
pub struct Worker21<T, P, S>(PhantomData<T>, PhantomData<P>, PhantomData<S>);
impl<T, P, S> Shape21<T, P, S> for Worker21<T, P, S>
where
    P: Log,
    S: IntoIterator<Item = T>,
    T: Into<u64>
{
    fn work21(other: &mut P, args: &u8, output: &u8,)
    {
        let e1: u64 = *args as u64; let e2: u64 = *output as u64; let r: Vec<u64> = vec![1, 21, 0, e1, e2]; other.log(r.clone()); super::note(r);
    }
    fn apply21(marker: &u8, x2: &u8, a: &mut P,)
    {
        let e0: u64 = *marker as u64; let e1: u64 = *x2 as u64; let r: Vec<u64> = vec![1, 21, 1, e0, e1]; a.log(r.clone()); super::note(r);
    }
    fn begin21(x1: &mut P, left: &u8, operand_b: &u8,)
    {
        let e1: u64 = *left as u64; let e2: u64 = *operand_b as u64; let r: Vec<u64> = vec![1, 21, 2, e1, e2]; x1.log(r.clone()); super::note(r);
    }
}
pub struct Decoy21<T, P, S>(PhantomData<T>, PhantomData<P>, PhantomData<S>);
impl<T, P, S> Shape21<T, P, S> for Decoy21<T, P, S>
where
    P: Log,
    S: IntoIterator<Item = T>,
    T: Into<u64>
{
    fn work21(other: &mut P, args: &u8, output: &u8,)
    {
        let e1: u64 = *args as u64; let e2: u64 = *output as u64; let r: Vec<u64> = vec![3, 21, 0, e1, e2]; other.log(r.clone()); super::note(r);
    }
    fn apply21(marker: &u8, x2: &u8, a: &mut P,)
    {
        let e0: u64 = *marker as u64; let e1: u64 = *x2 as u64; let r: Vec<u64> = vec![3, 21, 1, e0, e1]; a.log(r.clone()); super::note(r);
    }
    fn begin21(x1: &mut P, left: &u8, operand_b: &u8,)
    {
        let e1: u64 = *left as u64; let e2: u64 = *operand_b as u64; let r: Vec<u64> = vec![3, 21, 2, e1, e2]; x1.log(r.clone()); super::note(r);
    }
}
impl Shape21Marker for Dele {
    type Marker = Delegate;
}
impl Shape21Delegate<u8, Dele, Vec<u8>> for Dele {
    type Delegate = Worker21<u8, Dele, Vec<u8>>;
}
impl Shape21Marker for Own {
    type Marker = OwnMarker;
}
impl Shape21Delegate<u8, Own, Vec<u8>> for Own {
    type Delegate = Decoy21<u8, Own, Vec<u8>>;
}
impl Shape21Impl<u8, Own, Vec<u8>, OwnMarker> for Own {
    fn work21(other: &mut Own, args: &u8, output: &u8,)
    {
        let e1: u64 = *args as u64; let e2: u64 = *output as u64; let r: Vec<u64> = vec![2, 21, 0, e1, e2]; other.log(r.clone()); super::note(r);
    }
    fn apply21(marker: &u8, x2: &u8, a: &mut Own,)
    {
        let e0: u64 = *marker as u64; let e1: u64 = *x2 as u64; let r: Vec<u64> = vec![2, 21, 1, e0, e1]; a.log(r.clone()); super::note(r);
    }
    fn begin21(x1: &mut Own, left: &u8, operand_b: &u8,)
    {
        let e1: u64 = *left as u64; let e2: u64 = *operand_b as u64; let r: Vec<u64> = vec![2, 21, 2, e1, e2]; x1.log(r.clone()); super::note(r);
    }
}
fn call21_0<X: Shape21<u8, X, Vec<u8>> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v1 = v[0]; let mut v2 = v[1];
    let want: Vec<u64> = vec![tag, 21, 0, v1 as u64, v2 as u64];
    let mut protocol = X::fresh();
    let got: () = <X as Shape21<u8, X, Vec<u8>>>::work21(&mut protocol, &v1, &v2); let got = super::noted();
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call21_1<X: Shape21<u8, X, Vec<u8>> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 21, 1, v0 as u64, v1 as u64];
    let mut protocol = X::fresh();
    let got: () = <X as Shape21<u8, X, Vec<u8>>>::apply21(&v0, &v1, &mut protocol); let got = super::noted();
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call21_2<X: Shape21<u8, X, Vec<u8>> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v1 = v[0]; let mut v2 = v[1];
    let want: Vec<u64> = vec![tag, 21, 2, v1 as u64, v2 as u64];
    let mut protocol = X::fresh();
    let got: () = <X as Shape21<u8, X, Vec<u8>>>::begin21(&mut protocol, &v1, &v2); let got = super::noted();
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
/// protlt, ref, ref, ref
#[delegatable_protocol]
pub(crate) trait Shape22<P, T>
where
    P: Log + Send + Sync,
    T: Clone + 'static,
{
    fn work22<'a>(rng0: &'a mut P, protocol1: &u8, lhs2: &u8, rhs3: &u8);
    /// documented
    fn apply22<'a>(protocol0: &u8, lhs1: &u8, rhs2: &u8, x3: &'a mut P);
    fn begin22<'a>(lhs0: &'a mut P, rhs1: &u8, x2: &u8, value_3: &u8);
}
pub struct Worker22<P, T>(PhantomData<P>, PhantomData<T>);
impl<P, T> Shape22<P, T> for Worker22<P, T>
where
    P: Log + Send + Sync,
    T: Clone + 'static,
{
    fn work22<'a>(rng0: &'a mut P, protocol1: &u8, lhs2: &u8, rhs3: &u8)
    {
        let e1: u64 = *protocol1 as u64; let e2: u64 = *lhs2 as u64; let e3: u64 = *rhs3 as u64; let r: Vec<u64> = vec![1, 22, 0, e1, e2, e3]; rng0.log(r.clone()); super::note(r);
    }
    fn apply22<'a>(protocol0: &u8, lhs1: &u8, rhs2: &u8, x3: &'a mut P)
    {
        let e0: u64 = *protocol0 as u64; let e1: u64 = *lhs1 as u64; let e2: u64 = *rhs2 as u64; let r: Vec<u64> = vec![1, 22, 1, e0, e1, e2]; x3.log(r.clone()); super::note(r);
    }
    fn begin22<'a>(lhs0: &'a mut P, rhs1: &u8, x2: &u8, value_3: &u8)
    {
        let e1: u64 = *rhs1 as u64; let e2: u64 = *x2 as u64; let e3: u64 = *value_3 as u64; let r: Vec<u64> = vec![1, 22, 2, e1, e2, e3]; lhs0.log(r.clone()); super::note(r);
    }
}
pub struct Decoy22<P, T>(PhantomData<P>, PhantomData<T>);
impl<P, T> Shape22<P, T> for Decoy22<P, T>
where
    P: Log + Send + Sync,
    T: Clone + 'static,
{
    fn work22<'a>(rng0: &'a mut P, protocol1: &u8, lhs2: &u8, rhs3: &u8)
    {
        let e1: u64 = *protocol1 as u64; let e2: u64 = *lhs2 as u64; let e3: u64 = *rhs3 as u64; let r: Vec<u64> = vec![3, 22, 0, e1, e2, e3]; rng0.log(r.clone()); super::note(r);
    }
    fn apply22<'a>(protocol0: &u8, lhs1: &u8, rhs2: &u8, x3: &'a mut P)
    {
        let e0: u64 = *protocol0 as u64; let e1: u64 = *lhs1 as u64; let e2: u64 = *rhs2 as u64; let r: Vec<u64> = vec![3, 22, 1, e0, e1, e2]; x3.log(r.clone()); super::note(r);
    }
    fn begin22<'a>(lhs0: &'a mut P, rhs1: &u8, x2: &u8, value_3: &u8)
    {
        let e1: u64 = *rhs1 as u64; let e2: u64 = *x2 as u64; let e3: u64 = *value_3 as u64; let r: Vec<u64> = vec![3, 22, 2, e1, e2, e3]; lhs0.log(r.clone()); super::note(r);
    }
}
impl Shape22Marker for Dele {
    type Marker = Delegate;
}
impl Shape22Delegate<Dele, u8> for Dele {
    type Delegate = Worker22<Dele, u8>;
}
impl Shape22Marker for Own {
    type Marker = OwnMarker;
}
impl Shape22Delegate<Own, u8> for Own {
    type Delegate = Decoy22<Own, u8>;
}
impl Shape22Impl<Own, u8, OwnMarker> for Own {
    fn work22<'a>(rng0: &'a mut Own, protocol1: &u8, lhs2: &u8, rhs3: &u8)
    {
        let e1: u64 = *protocol1 as u64; let e2: u64 = *lhs2 as u64; let e3: u64 = *rhs3 as u64; let r: Vec<u64> = vec![2, 22, 0, e1, e2, e3]; rng0.log(r.clone()); super::note(r);
    }
    fn apply22<'a>(protocol0: &u8, lhs1: &u8, rhs2: &u8, x3: &'a mut Own)
    {
        let e0: u64 = *protocol0 as u64; let e1: u64 = *lhs1 as u64; let e2: u64 = *rhs2 as u64; let r: Vec<u64> = vec![2, 22, 1, e0, e1, e2]; x3.log(r.clone()); super::note(r);
    }
    fn begin22<'a>(lhs0: &'a mut Own, rhs1: &u8, x2: &u8, value_3: &u8)
    {
        let e1: u64 = *rhs1 as u64; let e2: u64 = *x2 as u64; let e3: u64 = *value_3 as u64; let r: Vec<u64> = vec![2, 22, 2, e1, e2, e3]; lhs0.log(r.clone()); super::note(r);
    }
}
fn call22_0<X: Shape22<X, u8> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v1 = v[0]; let mut v2 = v[1]; let mut v3 = v[2];
    let want: Vec<u64> = vec![tag, 22, 0, v1 as u64, v2 as u64, v3 as u64];
    let mut protocol = X::fresh();
    let got: () = <X as Shape22<X, u8>>::work22(&mut protocol, &v1, &v2, &v3); let got = super::noted();
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call22_1<X: Shape22<X, u8> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 22, 1, v0 as u64, v1 as u64, v2 as u64];
    let mut protocol = X::fresh();
    let got: () = <X as Shape22<X, u8>>::apply22(&v0, &v1, &v2, &mut protocol); let got = super::noted();
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call22_2<X: Shape22<X, u8> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v1 = v[0]; let mut v2 = v[1]; let mut v3 = v[2];
    let want: Vec<u64> = vec![tag, 22, 2, v1 as u64, v2 as u64, v3 as u64];
    let mut protocol = X::fresh();
    let got: () = <X as Shape22<X, u8>>::begin22(&mut protocol, &v1, &v2, &v3); let got = super::noted();
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
/// protlt, ref, ref, ref
#[delegatable_protocol]
pub trait Shape23<A, B, C, D, E, F, G, P>
where
    P: Log
{
    fn work23<'a>(P: &'a mut P, x10: &u8, right: &u8, first: &u8,) -> Vec<u64>;
    fn offset() -> u64 {
        1000
    }
    fn twice23() -> u64 {
        Self::offset() * 2
    }
}
pub struct Worker23<A, B, C, D, E, F, G, P>(PhantomData<A>, PhantomData<B>, PhantomData<C>, PhantomData<D>, PhantomData<E>, PhantomData<F>, PhantomData<G>, PhantomData<P>);
impl<A, B, C, D, E, F, G, P> Shape23<A, B, C, D, E, F, G, P> for Worker23<A, B, C, D, E, F, G, P>
where
    P: Log
{
    fn work23<'a>(P: &'a mut P, x10: &u8, right: &u8, first: &u8,) -> Vec<u64>
    {
        let e1: u64 = *x10 as u64; let e2: u64 = *right as u64; let e3: u64 = *first as u64; let r: Vec<u64> = vec![1, 23, 0, e1, e2, e3]; P.log(r.clone()); r
    }
}
pub struct Decoy23<A, B, C, D, E, F, G, P>(PhantomData<A>, PhantomData<B>, PhantomData<C>, PhantomData<D>, PhantomData<E>, PhantomData<F>, PhantomData<G>, PhantomData<P>);
impl<A, B, C, D, E, F, G, P> Shape23<A, B, C, D, E, F, G, P> for Decoy23<A, B, C, D, E, F, G, P>
where
    P: Log
{
    fn work23<'a>(P: &'a mut P, x10: &u8, right: &u8, first: &u8,) -> Vec<u64>
    {
        let e1: u64 = *x10 as u64; let e2: u64 = *right as u64; let e3: u64 = *first as u64; let r: Vec<u64> = vec![3, 23, 0, e1, e2, e3]; P.log(r.clone()); r
    }
}
impl Shape23Marker for Dele {
    type Marker = Delegate;
}
impl Shape23Delegate<u8, u16, u32, u64, i8, i16, i32, Dele> for Dele {
    type Delegate = Worker23<u8, u16, u32, u64, i8, i16, i32, Dele>;
}
impl Shape23Marker for Own {
    type Marker = OwnMarker;
}
impl Shape23Delegate<u8, u16, u32, u64, i8, i16, i32, Own> for Own {
    type Delegate = Decoy23<u8, u16, u32, u64, i8, i16, i32, Own>;
}
impl Shape23Impl<u8, u16, u32, u64, i8, i16, i32, Own, OwnMarker> for Own {
    fn work23<'a>(P: &'a mut Own, x10: &u8, right: &u8, first: &u8,) -> Vec<u64>
    {
        let e1: u64 = *x10 as u64; let e2: u64 = *right as u64; let e3: u64 = *first as u64; let r: Vec<u64> = vec![2, 23, 0, e1, e2, e3]; P.log(r.clone()); r
    }
}
fn call23_0<X: Shape23<u8, u16, u32, u64, i8, i16, i32, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v1 = v[0]; let mut v2 = v[1]; let mut v3 = v[2];
    let want: Vec<u64> = vec![tag, 23, 0, v1 as u64, v2 as u64, v3 as u64];
    let mut protocol = X::fresh();
    let got = <X as Shape23<u8, u16, u32, u64, i8, i16, i32, X>>::work23(&mut protocol, &v1, &v2, &v3);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn default23<X: Shape23<u8, u16, u32, u64, i8, i16, i32, X>+ Log + Send + Sync + 'static>(_: &[u8], _: u64) -> Outcome
{
    super::same("a default method", &<X as Shape23<u8, u16, u32, u64, i8, i16, i32, X>>::twice23(), &2000)
}
/// gen, prot, ref
#[delegatable_protocol]
pub trait Shape24<'b, T, P>
where
    P: Log,
    T: Send
{
    fn work24<Q0>(rng0: Q0, protocol1: &mut P, lhs2: &u8,) -> Vec<u64>
    where
        Q0: Into<u64>,;
    fn offset() -> u64 {
        1000
    }
    fn twice24() -> u64 {
        Self::offset() * 2
    }
}
pub struct Worker24<'b, T, P>(PhantomData<&'b ()>, PhantomData<T>, PhantomData<P>);
impl<'b, T, P> Shape24<'b, T, P> for Worker24<'b, T, P>
where
    P: Log,
    T: Send
{
    fn work24<Q0>(rng0: Q0, protocol1: &mut P, lhs2: &u8,) -> Vec<u64>
    where
        Q0: Into<u64>,
    {
        let e0: u64 = rng0.into(); let e2: u64 = *lhs2 as u64; let r: Vec<u64> = vec![1, 24, 0, e0, e2]; protocol1.log(r.clone()); r
    }
}
pub struct Decoy24<'b, T, P>(PhantomData<&'b ()>, PhantomData<T>, PhantomData<P>);
impl<'b, T, P> Shape24<'b, T, P> for Decoy24<'b, T, P>
where
    P: Log,
    T: Send
{
    fn work24<Q0>(rng0: Q0, protocol1: &mut P, lhs2: &u8,) -> Vec<u64>
    where
        Q0: Into<u64>,
    {
        let e0: u64 = rng0.into(); let e2: u64 = *lhs2 as u64; let r: Vec<u64> = vec![3, 24, 0, e0, e2]; protocol1.log(r.clone()); r
    }
}
impl Shape24Marker for Dele {
    type Marker = Delegate;
}
impl Shape24Delegate<'static, u8, Dele> for Dele {
    type Delegate = Worker24<'static, u8, Dele>;
}
impl Shape24Marker for Own {
    type Marker = OwnMarker;
}
impl Shape24Delegate<'static, u8, Own> for Own {
    type Delegate = Decoy24<'static, u8, Own>;
}
impl Shape24Impl<'static, u8, Own, OwnMarker> for Own {
    fn work24<Q0>(rng0: Q0, protocol1: &mut Own, lhs2: &u8,) -> Vec<u64>
    where
        Q0: Into<u64>,
    {
        let e0: u64 = rng0.into(); let e2: u64 = *lhs2 as u64; let r: Vec<u64> = vec![2, 24, 0, e0, e2]; protocol1.log(r.clone()); r
    }
}
fn call24_0<X: Shape24<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v2 = v[1];
    let want: Vec<u64> = vec![tag, 24, 0, v0 as u64, v2 as u64];
    let mut protocol = X::fresh();
    let got = <X as Shape24<'static, u8, X>>::work24(v0 as u16, &mut protocol, &v2);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn default24<X: Shape24<'static, u8, X>+ Log + Send + Sync + 'static>(_: &[u8], _: u64) -> Outcome
{
    super::same("a default method", &<X as Shape24<'static, u8, X>>::twice24(), &2000)
}
/// gen, prot, ref
#[delegatable_protocol]
trait Shape25<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send,
{
    fn work25<'a, Q0>(delegate: Q0, super_: &mut P, b: &u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    where
        Q0: Into<u64>;
    /// documented
    fn apply25<'a, Q2>(x10: &u8, right: &mut P, first: Q2) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    where
        Q2: Into<u64>;
}
pub struct Worker25<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape25<T, S, P> for Worker25<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send,
{
    fn work25<'a, Q0>(delegate: Q0, super_: &mut P, b: &u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    where
        Q0: Into<u64>
    {
        let e0: u64 = delegate.into(); let e2: u64 = *b as u64; let r: Vec<u64> = vec![1, 25, 0, e0, e2]; super_.log(r.clone()); Box::pin(async move { r })
    }
    fn apply25<'a, Q2>(x10: &u8, right: &mut P, first: Q2) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    where
        Q2: Into<u64>
    {
        let e0: u64 = *x10 as u64; let e2: u64 = first.into(); let r: Vec<u64> = vec![1, 25, 1, e0, e2]; right.log(r.clone()); Box::pin(async move { r })
    }
}
pub struct Decoy25<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape25<T, S, P> for Decoy25<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send,
{
    fn work25<'a, Q0>(delegate: Q0, super_: &mut P, b: &u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    where
        Q0: Into<u64>
    {
        let e0: u64 = delegate.into(); let e2: u64 = *b as u64; let r: Vec<u64> = vec![3, 25, 0, e0, e2]; super_.log(r.clone()); Box::pin(async move { r })
    }
    fn apply25<'a, Q2>(x10: &u8, right: &mut P, first: Q2) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    where
        Q2: Into<u64>
    {
        let e0: u64 = *x10 as u64; let e2: u64 = first.into(); let r: Vec<u64> = vec![3, 25, 1, e0, e2]; right.log(r.clone()); Box::pin(async move { r })
    }
}
impl Shape25Marker for Dele {
    type Marker = Delegate;
}
impl Shape25Delegate<u8, u16, Dele> for Dele {
    type Delegate = Worker25<u8, u16, Dele>;
}
impl Shape25Marker for Own {
    type Marker = OwnMarker;
}
impl Shape25Delegate<u8, u16, Own> for Own {
    type Delegate = Decoy25<u8, u16, Own>;
}
impl Shape25Impl<u8, u16, Own, OwnMarker> for Own {
    fn work25<'a, Q0>(delegate: Q0, super_: &mut Own, b: &u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    where
        Q0: Into<u64>
    {
        let e0: u64 = delegate.into(); let e2: u64 = *b as u64; let r: Vec<u64> = vec![2, 25, 0, e0, e2]; super_.log(r.clone()); Box::pin(async move { r })
    }
    fn apply25<'a, Q2>(x10: &u8, right: &mut Own, first: Q2) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    where
        Q2: Into<u64>
    {
        let e0: u64 = *x10 as u64; let e2: u64 = first.into(); let r: Vec<u64> = vec![2, 25, 1, e0, e2]; right.log(r.clone()); Box::pin(async move { r })
    }
}
fn call25_0<X: Shape25<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v2 = v[1];
    let want: Vec<u64> = vec![tag, 25, 0, v0 as u64, v2 as u64];
    let mut protocol = X::fresh();
    let got = block_on(<X as Shape25<u8, u16, X>>::work25(v0 as u16, &mut protocol, &v2));
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call25_1<X: Shape25<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v2 = v[1];
    let want: Vec<u64> = vec![tag, 25, 1, v0 as u64, v2 as u64];
    let mut protocol = X::fresh();
    let got = block_on(<X as Shape25<u8, u16, X>>::apply25(&v0, &mut protocol, v2 as u16));
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
/// gen, gen
#[delegatable_protocol]
trait Shape26<Marked, Other, P>
where
    P: Log,
    Marked: Copy,
    Other: Copy,
{
    fn work26<'a, Q0, Q1>(rng0: Q0, protocol1: Q1,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    where
        Q0: Into<u64>, Q1: Into<u64>,;
    /// documented
    fn apply26<'a, Q0, Q1>(protocol0: Q0, lhs1: Q1,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    where
        Q0: Into<u64>, Q1: Into<u64>,;
}
pub struct Worker26<Marked, Other, P>(PhantomData<Marked>, PhantomData<Other>, PhantomData<P>);
impl<Marked, Other, P> Shape26<Marked, Other, P> for Worker26<Marked, Other, P>
where
    P: Log,
    Marked: Copy,
    Other: Copy,
{
    fn work26<'a, Q0, Q1>(rng0: Q0, protocol1: Q1,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    where
        Q0: Into<u64>, Q1: Into<u64>,
    {
        let e0: u64 = rng0.into(); let e1: u64 = protocol1.into(); let r: Vec<u64> = vec![1, 26, 0, e0, e1]; Box::pin(async move { r })
    }
    fn apply26<'a, Q0, Q1>(protocol0: Q0, lhs1: Q1,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    where
        Q0: Into<u64>, Q1: Into<u64>,
    {
        let e0: u64 = protocol0.into(); let e1: u64 = lhs1.into(); let r: Vec<u64> = vec![1, 26, 1, e0, e1]; Box::pin(async move { r })
    }
}
pub struct Decoy26<Marked, Other, P>(PhantomData<Marked>, PhantomData<Other>, PhantomData<P>);
impl<Marked, Other, P> Shape26<Marked, Other, P> for Decoy26<Marked, Other, P>
where
    P: Log,
    Marked: Copy,
    Other: Copy,
{
    fn work26<'a, Q0, Q1>(rng0: Q0, protocol1: Q1,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    where
        Q0: Into<u64>, Q1: Into<u64>,
    {
        let e0: u64 = rng0.into(); let e1: u64 = protocol1.into(); let r: Vec<u64> = vec![3, 26, 0, e0, e1]; Box::pin(async move { r })
    }
    fn apply26<'a, Q0, Q1>(protocol0: Q0, lhs1: Q1,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    where
        Q0: Into<u64>, Q1: Into<u64>,
    {
        let e0: u64 = protocol0.into(); let e1: u64 = lhs1.into(); let r: Vec<u64> = vec![3, 26, 1, e0, e1]; Box::pin(async move { r })
    }
}
impl Shape26Marker for Dele {
    type Marker = Delegate;
}
impl Shape26Delegate<u8, u16, Dele> for Dele {
    type Delegate = Worker26<u8, u16, Dele>;
}
impl Shape26Marker for Own {
    type Marker = OwnMarker;
}
impl Shape26Delegate<u8, u16, Own> for Own {
    type Delegate = Decoy26<u8, u16, Own>;
}
impl Shape26Impl<u8, u16, Own, OwnMarker> for Own {
    fn work26<'a, Q0, Q1>(rng0: Q0, protocol1: Q1,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    where
        Q0: Into<u64>, Q1: Into<u64>,
    {
        let e0: u64 = rng0.into(); let e1: u64 = protocol1.into(); let r: Vec<u64> = vec![2, 26, 0, e0, e1]; Box::pin(async move { r })
    }
    fn apply26<'a, Q0, Q1>(protocol0: Q0, lhs1: Q1,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    where
        Q0: Into<u64>, Q1: Into<u64>,
    {
        let e0: u64 = protocol0.into(); let e1: u64 = lhs1.into(); let r: Vec<u64> = vec![2, 26, 1, e0, e1]; Box::pin(async move { r })
    }
}
fn call26_0<X: Shape26<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 26, 0, v0 as u64, v1 as u64];
    let got = block_on(<X as Shape26<u8, u16, X>>::work26(v0 as u16, v1 as u16));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call26_1<X: Shape26<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 26, 1, v0 as u64, v1 as u64];
    let got = block_on(<X as Shape26<u8, u16, X>>::apply26(v0 as u16, v1 as u16));
    super::same("the result", &got, &want)?;
    Ok(())
}
/// gen, gen
#[delegatable_protocol]
pub(crate) trait Shape27<P>
where
    P: Log
{
    fn work27<Q0, Q1>(x1: Q0, left: Q1) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>;
    /// documented
    fn apply27<Q0, Q1>(super_: Q0, b: Q1) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>;
    fn begin27<Q0, Q1>(right: Q0, first: Q1) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>;
}
pub struct Worker27<P>(PhantomData<P>);
impl<P> Shape27<P> for Worker27<P>
where
    P: Log
{
    fn work27<Q0, Q1>(x1: Q0, left: Q1) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>
    {
        let e0: u64 = x1.into(); let e1: u64 = left.into(); let r: Vec<u64> = vec![1, 27, 0, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply27<Q0, Q1>(super_: Q0, b: Q1) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>
    {
        let e0: u64 = super_.into(); let e1: u64 = b.into(); let r: Vec<u64> = vec![1, 27, 1, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn begin27<Q0, Q1>(right: Q0, first: Q1) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>
    {
        let e0: u64 = right.into(); let e1: u64 = first.into(); let r: Vec<u64> = vec![1, 27, 2, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
pub struct Decoy27<P>(PhantomData<P>);
impl<P> Shape27<P> for Decoy27<P>
where
    P: Log
{
    fn work27<Q0, Q1>(x1: Q0, left: Q1) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>
    {
        let e0: u64 = x1.into(); let e1: u64 = left.into(); let r: Vec<u64> = vec![3, 27, 0, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply27<Q0, Q1>(super_: Q0, b: Q1) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>
    {
        let e0: u64 = super_.into(); let e1: u64 = b.into(); let r: Vec<u64> = vec![3, 27, 1, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn begin27<Q0, Q1>(right: Q0, first: Q1) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>
    {
        let e0: u64 = right.into(); let e1: u64 = first.into(); let r: Vec<u64> = vec![3, 27, 2, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
impl Shape27Marker for Dele {
    type Marker = Delegate;
}
impl Shape27Delegate<Dele> for Dele {
    type Delegate = Worker27<Dele>;
}
impl Shape27Marker for Own {
    type Marker = OwnMarker;
}
impl Shape27Delegate<Own> for Own {
    type Delegate = Decoy27<Own>;
}
impl Shape27Impl<Own, OwnMarker> for Own {
    fn work27<Q0, Q1>(x1: Q0, left: Q1) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>
    {
        let e0: u64 = x1.into(); let e1: u64 = left.into(); let r: Vec<u64> = vec![2, 27, 0, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply27<Q0, Q1>(super_: Q0, b: Q1) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>
    {
        let e0: u64 = super_.into(); let e1: u64 = b.into(); let r: Vec<u64> = vec![2, 27, 1, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn begin27<Q0, Q1>(right: Q0, first: Q1) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>
    {
        let e0: u64 = right.into(); let e1: u64 = first.into(); let r: Vec<u64> = vec![2, 27, 2, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
fn call27_0<X: Shape27<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 27, 0, v0 as u64, v1 as u64];
    let got = <X as Shape27<X>>::work27(v0 as u16, v1 as u16);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call27_1<X: Shape27<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 27, 1, v0 as u64, v1 as u64];
    let got = <X as Shape27<X>>::apply27(v0 as u16, v1 as u16);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call27_2<X: Shape27<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 27, 2, v0 as u64, v1 as u64];
    let got = <X as Shape27<X>>::begin27(v0 as u16, v1 as u16);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
/// gen, gen, gen
#[delegatable_protocol]
pub(crate) trait Shape28<T, S, P,>
where
    P: Log + Send,
    T: Send,
    S: Send
{
    fn work28<Q0, Q1, Q2>(rng0: Q0, protocol1: Q1, lhs2: Q2) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>;
    /// documented
    fn apply28<Q0, Q1, Q2>(protocol0: Q0, lhs1: Q1, rhs2: Q2) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>;
    fn begin28<Q0, Q1, Q2>(lhs0: Q0, rhs1: Q1, x2: Q2) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>;
}
pub struct Worker28<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape28<T, S, P> for Worker28<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send
{
    fn work28<Q0, Q1, Q2>(rng0: Q0, protocol1: Q1, lhs2: Q2) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>
    {
        let e0: u64 = rng0.into(); let e1: u64 = protocol1.into(); let e2: u64 = lhs2.into(); let r: Vec<u64> = vec![1, 28, 0, e0, e1, e2]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply28<Q0, Q1, Q2>(protocol0: Q0, lhs1: Q1, rhs2: Q2) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>
    {
        let e0: u64 = protocol0.into(); let e1: u64 = lhs1.into(); let e2: u64 = rhs2.into(); let r: Vec<u64> = vec![1, 28, 1, e0, e1, e2]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn begin28<Q0, Q1, Q2>(lhs0: Q0, rhs1: Q1, x2: Q2) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>
    {
        let e0: u64 = lhs0.into(); let e1: u64 = rhs1.into(); let e2: u64 = x2.into(); let r: Vec<u64> = vec![1, 28, 2, e0, e1, e2]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
pub struct Decoy28<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape28<T, S, P> for Decoy28<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send
{
    fn work28<Q0, Q1, Q2>(rng0: Q0, protocol1: Q1, lhs2: Q2) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>
    {
        let e0: u64 = rng0.into(); let e1: u64 = protocol1.into(); let e2: u64 = lhs2.into(); let r: Vec<u64> = vec![3, 28, 0, e0, e1, e2]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply28<Q0, Q1, Q2>(protocol0: Q0, lhs1: Q1, rhs2: Q2) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>
    {
        let e0: u64 = protocol0.into(); let e1: u64 = lhs1.into(); let e2: u64 = rhs2.into(); let r: Vec<u64> = vec![3, 28, 1, e0, e1, e2]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn begin28<Q0, Q1, Q2>(lhs0: Q0, rhs1: Q1, x2: Q2) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>
    {
        let e0: u64 = lhs0.into(); let e1: u64 = rhs1.into(); let e2: u64 = x2.into(); let r: Vec<u64> = vec![3, 28, 2, e0, e1, e2]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
impl Shape28Marker for Dele {
    type Marker = Delegate;
}
impl Shape28Delegate<u8, u16, Dele> for Dele {
    type Delegate = Worker28<u8, u16, Dele>;
}
impl Shape28Marker for Own {
    type Marker = OwnMarker;
}
impl Shape28Delegate<u8, u16, Own> for Own {
    type Delegate = Decoy28<u8, u16, Own>;
}
impl Shape28Impl<u8, u16, Own, OwnMarker> for Own {
    fn work28<Q0, Q1, Q2>(rng0: Q0, protocol1: Q1, lhs2: Q2) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>
    {
        let e0: u64 = rng0.into(); let e1: u64 = protocol1.into(); let e2: u64 = lhs2.into(); let r: Vec<u64> = vec![2, 28, 0, e0, e1, e2]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply28<Q0, Q1, Q2>(protocol0: Q0, lhs1: Q1, rhs2: Q2) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>
    {
        let e0: u64 = protocol0.into(); let e1: u64 = lhs1.into(); let e2: u64 = rhs2.into(); let r: Vec<u64> = vec![2, 28, 1, e0, e1, e2]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn begin28<Q0, Q1, Q2>(lhs0: Q0, rhs1: Q1, x2: Q2) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>
    {
        let e0: u64 = lhs0.into(); let e1: u64 = rhs1.into(); let e2: u64 = x2.into(); let r: Vec<u64> = vec![2, 28, 2, e0, e1, e2]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
fn call28_0<X: Shape28<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 28, 0, v0 as u64, v1 as u64, v2 as u64];
    let got = <X as Shape28<u8, u16, X>>::work28(v0 as u16, v1 as u16, v2 as u16);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call28_1<X: Shape28<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 28, 1, v0 as u64, v1 as u64, v2 as u64];
    let got = <X as Shape28<u8, u16, X>>::apply28(v0 as u16, v1 as u16, v2 as u16);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call28_2<X: Shape28<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 28, 2, v0 as u64, v1 as u64, v2 as u64];
    let got = <X as Shape28<u8, u16, X>>::begin28(v0 as u16, v1 as u16, v2 as u16);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
/// gen, gen, gen
#[delegatable_protocol]
pub trait Shape29<P, T>
where
    P: Log + Send + Sync,
    T: Clone + 'static,
{
    fn work29<Q0, Q1, Q2>(x2: Q0, a: Q1, second: Q2,)
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>,;
}
pub struct Worker29<P, T>(PhantomData<P>, PhantomData<T>);
impl<P, T> Shape29<P, T> for Worker29<P, T>
where
    P: Log + Send + Sync,
    T: Clone + 'static,
{
    fn work29<Q0, Q1, Q2>(x2: Q0, a: Q1, second: Q2,)
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>,
    {
        let e0: u64 = x2.into(); let e1: u64 = a.into(); let e2: u64 = second.into(); let r: Vec<u64> = vec![1, 29, 0, e0, e1, e2]; super::note(r);
    }
}
pub struct Decoy29<P, T>(PhantomData<P>, PhantomData<T>);
impl<P, T> Shape29<P, T> for Decoy29<P, T>
where
    P: Log + Send + Sync,
    T: Clone + 'static,
{
    fn work29<Q0, Q1, Q2>(x2: Q0, a: Q1, second: Q2,)
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>,
    {
        let e0: u64 = x2.into(); let e1: u64 = a.into(); let e2: u64 = second.into(); let r: Vec<u64> = vec![3, 29, 0, e0, e1, e2]; super::note(r);
    }
}
impl Shape29Marker for Dele {
    type Marker = Delegate;
}
impl Shape29Delegate<Dele, u8> for Dele {
    type Delegate = Worker29<Dele, u8>;
}
impl Shape29Marker for Own {
    type Marker = OwnMarker;
}
impl Shape29Delegate<Own, u8> for Own {
    type Delegate = Decoy29<Own, u8>;
}
impl Shape29Impl<Own, u8, OwnMarker> for Own {
    fn work29<Q0, Q1, Q2>(x2: Q0, a: Q1, second: Q2,)
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>,
    {
        let e0: u64 = x2.into(); let e1: u64 = a.into(); let e2: u64 = second.into(); let r: Vec<u64> = vec![2, 29, 0, e0, e1, e2]; super::note(r);
    }
}
fn call29_0<X: Shape29<X, u8> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 29, 0, v0 as u64, v1 as u64, v2 as u64];
    let got: () = <X as Shape29<X, u8>>::work29(v0 as u16, v1 as u16, v2 as u16); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
/// gen, protlt, slice
#[delegatable_protocol]
pub trait Shape30<P,>
where
    P: Log,
{
    fn work30<'a, Q0>(rng0: Q0, protocol1: &'a mut P, lhs2: &[u8])
    where
        Q0: Into<u64>;
}
pub struct Worker30<P>(PhantomData<P>);
impl<P> Shape30<P> for Worker30<P>
where
    P: Log,
{
    fn work30<'a, Q0>(rng0: Q0, protocol1: &'a mut P, lhs2: &[u8])
    where
        Q0: Into<u64>
    {
        let e0: u64 = rng0.into(); let e2: u64 = lhs2.iter().fold(lhs2.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![1, 30, 0, e0, e2]; protocol1.log(r.clone()); super::note(r);
    }
}
pub struct Decoy30<P>(PhantomData<P>);
impl<P> Shape30<P> for Decoy30<P>
where
    P: Log,
{
    fn work30<'a, Q0>(rng0: Q0, protocol1: &'a mut P, lhs2: &[u8])
    where
        Q0: Into<u64>
    {
        let e0: u64 = rng0.into(); let e2: u64 = lhs2.iter().fold(lhs2.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![3, 30, 0, e0, e2]; protocol1.log(r.clone()); super::note(r);
    }
}
impl Shape30Marker for Dele {
    type Marker = Delegate;
}
impl Shape30Delegate<Dele> for Dele {
    type Delegate = Worker30<Dele>;
}
impl Shape30Marker for Own {
    type Marker = OwnMarker;
}
impl Shape30Delegate<Own> for Own {
    type Delegate = Decoy30<Own>;
}
impl Shape30Impl<Own, OwnMarker> for Own {
    fn work30<'a, Q0>(rng0: Q0, protocol1: &'a mut Own, lhs2: &[u8])
    where
        Q0: Into<u64>
    {
        let e0: u64 = rng0.into(); let e2: u64 = lhs2.iter().fold(lhs2.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![2, 30, 0, e0, e2]; protocol1.log(r.clone()); super::note(r);
    }
}
fn call30_0<X: Shape30<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v2 = v[1];
    let want: Vec<u64> = vec![tag, 30, 0, v0 as u64, (2 * 256 + v2 as u64) * 256 + v2 as u64 + 1];
    let mut protocol = X::fresh();
    let got: () = <X as Shape30<X>>::work30(v0 as u16, &mut protocol, &[v2, v2 + 1][..]); let got = super::noted();
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
/// gen, protlt, slice
#[delegatable_protocol]
trait Shape31<'b, T, P>
where
    P: Log,
    T: Send
{
    fn work31<'a, Q0>(output: Q0, operand_a: &'a mut P, lhs: &[u8],) -> Vec<u64>
    where
        Q0: Into<u64>,;
    /// documented
    fn apply31<'a, Q2>(a: &[u8], second: &'a mut P, bits: Q2,) -> Vec<u64>
    where
        Q2: Into<u64>,;
    fn begin31<'a, Q0>(operand_b: Q0, rhs: &'a mut P, rng: &[u8],) -> Vec<u64>
    where
        Q0: Into<u64>,;
    /// documented
    fn zeta31<'a, Q2>(condition: &[u8], secret: &'a mut P, threshold: Q2,) -> Vec<u64>
    where
        Q2: Into<u64>,;
    fn reveal31<'a, Q0>(elements: Q0, protocol: &'a mut P, other: &[u8],) -> Vec<u64>
    where
        Q0: Into<u64>,;
    /// documented
    fn a31<'a, Q2>(count: &[u8], index: &'a mut P, marker: Q2,) -> Vec<u64>
    where
        Q2: Into<u64>,;
    fn Upper31<'a, Q0>(shares: Q0, z: &'a mut P, x1: &[u8],) -> Vec<u64>
    where
        Q0: Into<u64>,;
    /// documented
    fn snake_case_name_of_a_method31<'a, Q2>(values: &[u8], delegate: &'a mut P, super_: Q2,) -> Vec<u64>
    where
        Q2: Into<u64>,;
    fn new31<'a, Q0>(P: Q0, x10: &'a mut P, right: &[u8],) -> Vec<u64>
    where
        Q0: Into<u64>,;
    /// documented
    fn delegate31<'a, Q2>(args: &[u8], output: &'a mut P, operand_a: Q2,) -> Vec<u64>
    where
        Q2: Into<u64>,;
    fn p31<'a, Q0>(x2: Q0, a: &'a mut P, second: &[u8],) -> Vec<u64>
    where
        Q0: Into<u64>,;
    /// documented
    fn multiply31<'a, Q2>(left: &[u8], operand_b: &'a mut P, rhs: Q2,) -> Vec<u64>
    where
        Q2: Into<u64>,;
    fn offset() -> u64 {
        1000
    }
    fn twice31() -> u64 {
        Self::offset() * 2
    }
}
pub struct Worker31<'b, T, P>(PhantomData<&'b ()>, PhantomData<T>, PhantomData<P>);
impl<'b, T, P> Shape31<'b, T, P> for Worker31<'b, T, P>
where
    P: Log,
    T: Send
{
    fn work31<'a, Q0>(output: Q0, operand_a: &'a mut P, lhs: &[u8],) -> Vec<u64>
    where
        Q0: Into<u64>,
    {
        let e0: u64 = output.into(); let e2: u64 = lhs.iter().fold(lhs.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![1, 31, 0, e0, e2]; operand_a.log(r.clone()); r
    }
    fn apply31<'a, Q2>(a: &[u8], second: &'a mut P, bits: Q2,) -> Vec<u64>
    where
        Q2: Into<u64>,
    {
        let e0: u64 = a.iter().fold(a.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = bits.into(); let r: Vec<u64> = vec![1, 31, 1, e0, e2]; second.log(r.clone()); r
    }
    fn begin31<'a, Q0>(operand_b: Q0, rhs: &'a mut P, rng: &[u8],) -> Vec<u64>
    where
        Q0: Into<u64>,
    {
        let e0: u64 = operand_b.into(); let e2: u64 = rng.iter().fold(rng.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![1, 31, 2, e0, e2]; rhs.log(r.clone()); r
    }
    fn zeta31<'a, Q2>(condition: &[u8], secret: &'a mut P, threshold: Q2,) -> Vec<u64>
    where
        Q2: Into<u64>,
    {
        let e0: u64 = condition.iter().fold(condition.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = threshold.into(); let r: Vec<u64> = vec![1, 31, 3, e0, e2]; secret.log(r.clone()); r
    }
    fn reveal31<'a, Q0>(elements: Q0, protocol: &'a mut P, other: &[u8],) -> Vec<u64>
    where
        Q0: Into<u64>,
    {
        let e0: u64 = elements.into(); let e2: u64 = other.iter().fold(other.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![1, 31, 4, e0, e2]; protocol.log(r.clone()); r
    }
    fn a31<'a, Q2>(count: &[u8], index: &'a mut P, marker: Q2,) -> Vec<u64>
    where
        Q2: Into<u64>,
    {
        let e0: u64 = count.iter().fold(count.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = marker.into(); let r: Vec<u64> = vec![1, 31, 5, e0, e2]; index.log(r.clone()); r
    }
    fn Upper31<'a, Q0>(shares: Q0, z: &'a mut P, x1: &[u8],) -> Vec<u64>
    where
        Q0: Into<u64>,
    {
        let e0: u64 = shares.into(); let e2: u64 = x1.iter().fold(x1.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![1, 31, 6, e0, e2]; z.log(r.clone()); r
    }
    fn snake_case_name_of_a_method31<'a, Q2>(values: &[u8], delegate: &'a mut P, super_: Q2,) -> Vec<u64>
    where
        Q2: Into<u64>,
    {
        let e0: u64 = values.iter().fold(values.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = super_.into(); let r: Vec<u64> = vec![1, 31, 7, e0, e2]; delegate.log(r.clone()); r
    }
    fn new31<'a, Q0>(P: Q0, x10: &'a mut P, right: &[u8],) -> Vec<u64>
    where
        Q0: Into<u64>,
    {
        let e0: u64 = P.into(); let e2: u64 = right.iter().fold(right.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![1, 31, 8, e0, e2]; x10.log(r.clone()); r
    }
    fn delegate31<'a, Q2>(args: &[u8], output: &'a mut P, operand_a: Q2,) -> Vec<u64>
    where
        Q2: Into<u64>,
    {
        let e0: u64 = args.iter().fold(args.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = operand_a.into(); let r: Vec<u64> = vec![1, 31, 9, e0, e2]; output.log(r.clone()); r
    }
    fn p31<'a, Q0>(x2: Q0, a: &'a mut P, second: &[u8],) -> Vec<u64>
    where
        Q0: Into<u64>,
    {
        let e0: u64 = x2.into(); let e2: u64 = second.iter().fold(second.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![1, 31, 10, e0, e2]; a.log(r.clone()); r
    }
    fn multiply31<'a, Q2>(left: &[u8], operand_b: &'a mut P, rhs: Q2,) -> Vec<u64>
    where
        Q2: Into<u64>,
    {
        let e0: u64 = left.iter().fold(left.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = rhs.into(); let r: Vec<u64> = vec![1, 31, 11, e0, e2]; operand_b.log(r.clone()); r
    }
}
pub struct Decoy31<'b, T, P>(PhantomData<&'b ()>, PhantomData<T>, PhantomData<P>);
impl<'b, T, P> Shape31<'b, T, P> for Decoy31<'b, T, P>
where
    P: Log,
    T: Send
{
    fn work31<'a, Q0>(output: Q0, operand_a: &'a mut P, lhs: &[u8],) -> Vec<u64>
    where
        Q0: Into<u64>,
    {
        let e0: u64 = output.into(); let e2: u64 = lhs.iter().fold(lhs.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![3, 31, 0, e0, e2]; operand_a.log(r.clone()); r
    }
    fn apply31<'a, Q2>(a: &[u8], second: &'a mut P, bits: Q2,) -> Vec<u64>
    where
        Q2: Into<u64>,
    {
        let e0: u64 = a.iter().fold(a.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = bits.into(); let r: Vec<u64> = vec![3, 31, 1, e0, e2]; second.log(r.clone()); r
    }
    fn begin31<'a, Q0>(operand_b: Q0, rhs: &'a mut P, rng: &[u8],) -> Vec<u64>
    where
        Q0: Into<u64>,
    {
        let e0: u64 = operand_b.into(); let e2: u64 = rng.iter().fold(rng.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![3, 31, 2, e0, e2]; rhs.log(r.clone()); r
    }
    fn zeta31<'a, Q2>(condition: &[u8], secret: &'a mut P, threshold: Q2,) -> Vec<u64>
    where
        Q2: Into<u64>,
    {
        let e0: u64 = condition.iter().fold(condition.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = threshold.into(); let r: Vec<u64> = vec![3, 31, 3, e0, e2]; secret.log(r.clone()); r
    }
    fn reveal31<'a, Q0>(elements: Q0, protocol: &'a mut P, other: &[u8],) -> Vec<u64>
    where
        Q0: Into<u64>,
    {
        let e0: u64 = elements.into(); let e2: u64 = other.iter().fold(other.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![3, 31, 4, e0, e2]; protocol.log(r.clone()); r
    }
    fn a31<'a, Q2>(count: &[u8], index: &'a mut P, marker: Q2,) -> Vec<u64>
    where
        Q2: Into<u64>,
    {
        let e0: u64 = count.iter().fold(count.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = marker.into(); let r: Vec<u64> = vec![3, 31, 5, e0, e2]; index.log(r.clone()); r
    }
    fn Upper31<'a, Q0>(shares: Q0, z: &'a mut P, x1: &[u8],) -> Vec<u64>
    where
        Q0: Into<u64>,
    {
        let e0: u64 = shares.into(); let e2: u64 = x1.iter().fold(x1.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![3, 31, 6, e0, e2]; z.log(r.clone()); r
    }
    fn snake_case_name_of_a_method31<'a, Q2>(values: &[u8], delegate: &'a mut P, super_: Q2,) -> Vec<u64>
    where
        Q2: Into<u64>,
    {
        let e0: u64 = values.iter().fold(values.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = super_.into(); let r: Vec<u64> = vec![3, 31, 7, e0, e2]; delegate.log(r.clone()); r
    }
    fn new31<'a, Q0>(P: Q0, x10: &'a mut P, right: &[u8],) -> Vec<u64>
    where
        Q0: Into<u64>,
    {
        let e0: u64 = P.into(); let e2: u64 = right.iter().fold(right.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![3, 31, 8, e0, e2]; x10.log(r.clone()); r
    }
    fn delegate31<'a, Q2>(args: &[u8], output: &'a mut P, operand_a: Q2,) -> Vec<u64>
    where
        Q2: Into<u64>,
    {
        let e0: u64 = args.iter().fold(args.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = operand_a.into(); let r: Vec<u64> = vec![3, 31, 9, e0, e2]; output.log(r.clone()); r
    }
    fn p31<'a, Q0>(x2: Q0, a: &'a mut P, second: &[u8],) -> Vec<u64>
    where
        Q0: Into<u64>,
    {
        let e0: u64 = x2.into(); let e2: u64 = second.iter().fold(second.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![3, 31, 10, e0, e2]; a.log(r.clone()); r
    }
    fn multiply31<'a, Q2>(left: &[u8], operand_b: &'a mut P, rhs: Q2,) -> Vec<u64>
    where
        Q2: Into<u64>,
    {
        let e0: u64 = left.iter().fold(left.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = rhs.into(); let r: Vec<u64> = vec![3, 31, 11, e0, e2]; operand_b.log(r.clone()); r
    }
}
impl Shape31Marker for Dele {
    type Marker = Delegate;
}
impl Shape31Delegate<'static, u8, Dele> for Dele {
    type Delegate = Worker31<'static, u8, Dele>;
}
impl Shape31Marker for Own {
    type Marker = OwnMarker;
}
impl Shape31Delegate<'static, u8, Own> for Own {
    type Delegate = Decoy31<'static, u8, Own>;
}
impl Shape31Impl<'static, u8, Own, OwnMarker> for Own {
    fn work31<'a, Q0>(output: Q0, operand_a: &'a mut Own, lhs: &[u8],) -> Vec<u64>
    where
        Q0: Into<u64>,
    {
        let e0: u64 = output.into(); let e2: u64 = lhs.iter().fold(lhs.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![2, 31, 0, e0, e2]; operand_a.log(r.clone()); r
    }
    fn apply31<'a, Q2>(a: &[u8], second: &'a mut Own, bits: Q2,) -> Vec<u64>
    where
        Q2: Into<u64>,
    {
        let e0: u64 = a.iter().fold(a.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = bits.into(); let r: Vec<u64> = vec![2, 31, 1, e0, e2]; second.log(r.clone()); r
    }
    fn begin31<'a, Q0>(operand_b: Q0, rhs: &'a mut Own, rng: &[u8],) -> Vec<u64>
    where
        Q0: Into<u64>,
    {
        let e0: u64 = operand_b.into(); let e2: u64 = rng.iter().fold(rng.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![2, 31, 2, e0, e2]; rhs.log(r.clone()); r
    }
    fn zeta31<'a, Q2>(condition: &[u8], secret: &'a mut Own, threshold: Q2,) -> Vec<u64>
    where
        Q2: Into<u64>,
    {
        let e0: u64 = condition.iter().fold(condition.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = threshold.into(); let r: Vec<u64> = vec![2, 31, 3, e0, e2]; secret.log(r.clone()); r
    }
    fn reveal31<'a, Q0>(elements: Q0, protocol: &'a mut Own, other: &[u8],) -> Vec<u64>
    where
        Q0: Into<u64>,
    {
        let e0: u64 = elements.into(); let e2: u64 = other.iter().fold(other.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![2, 31, 4, e0, e2]; protocol.log(r.clone()); r
    }
    fn a31<'a, Q2>(count: &[u8], index: &'a mut Own, marker: Q2,) -> Vec<u64>
    where
        Q2: Into<u64>,
    {
        let e0: u64 = count.iter().fold(count.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = marker.into(); let r: Vec<u64> = vec![2, 31, 5, e0, e2]; index.log(r.clone()); r
    }
    fn Upper31<'a, Q0>(shares: Q0, z: &'a mut Own, x1: &[u8],) -> Vec<u64>
    where
        Q0: Into<u64>,
    {
        let e0: u64 = shares.into(); let e2: u64 = x1.iter().fold(x1.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![2, 31, 6, e0, e2]; z.log(r.clone()); r
    }
    fn snake_case_name_of_a_method31<'a, Q2>(values: &[u8], delegate: &'a mut Own, super_: Q2,) -> Vec<u64>
    where
        Q2: Into<u64>,
    {
        let e0: u64 = values.iter().fold(values.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = super_.into(); let r: Vec<u64> = vec![2, 31, 7, e0, e2]; delegate.log(r.clone()); r
    }
    fn new31<'a, Q0>(P: Q0, x10: &'a mut Own, right: &[u8],) -> Vec<u64>
    where
        Q0: Into<u64>,
    {
        let e0: u64 = P.into(); let e2: u64 = right.iter().fold(right.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![2, 31, 8, e0, e2]; x10.log(r.clone()); r
    }
    fn delegate31<'a, Q2>(args: &[u8], output: &'a mut Own, operand_a: Q2,) -> Vec<u64>
    where
        Q2: Into<u64>,
    {
        let e0: u64 = args.iter().fold(args.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = operand_a.into(); let r: Vec<u64> = vec![2, 31, 9, e0, e2]; output.log(r.clone()); r
    }
    fn p31<'a, Q0>(x2: Q0, a: &'a mut Own, second: &[u8],) -> Vec<u64>
    where
        Q0: Into<u64>,
    {
        let e0: u64 = x2.into(); let e2: u64 = second.iter().fold(second.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![2, 31, 10, e0, e2]; a.log(r.clone()); r
    }
    fn multiply31<'a, Q2>(left: &[u8], operand_b: &'a mut Own, rhs: Q2,) -> Vec<u64>
    where
        Q2: Into<u64>,
    {
        let e0: u64 = left.iter().fold(left.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = rhs.into(); let r: Vec<u64> = vec![2, 31, 11, e0, e2]; operand_b.log(r.clone()); r
    }
}
fn call31_0<X: Shape31<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v2 = v[1];
    let want: Vec<u64> = vec![tag, 31, 0, v0 as u64, (2 * 256 + v2 as u64) * 256 + v2 as u64 + 1];
    let mut protocol = X::fresh();
    let got = <X as Shape31<'static, u8, X>>::work31(v0 as u16, &mut protocol, &[v2, v2 + 1][..]);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call31_1<X: Shape31<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v2 = v[1];
    let want: Vec<u64> = vec![tag, 31, 1, (2 * 256 + v0 as u64) * 256 + v0 as u64 + 1, v2 as u64];
    let mut protocol = X::fresh();
    let got = <X as Shape31<'static, u8, X>>::apply31(&[v0, v0 + 1][..], &mut protocol, v2 as u16);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call31_2<X: Shape31<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v2 = v[1];
    let want: Vec<u64> = vec![tag, 31, 2, v0 as u64, (2 * 256 + v2 as u64) * 256 + v2 as u64 + 1];
    let mut protocol = X::fresh();
    let got = <X as Shape31<'static, u8, X>>::begin31(v0 as u16, &mut protocol, &[v2, v2 + 1][..]);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call31_3<X: Shape31<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v2 = v[1];
    let want: Vec<u64> = vec![tag, 31, 3, (2 * 256 + v0 as u64) * 256 + v0 as u64 + 1, v2 as u64];
    let mut protocol = X::fresh();
    let got = <X as Shape31<'static, u8, X>>::zeta31(&[v0, v0 + 1][..], &mut protocol, v2 as u16);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call31_4<X: Shape31<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v2 = v[1];
    let want: Vec<u64> = vec![tag, 31, 4, v0 as u64, (2 * 256 + v2 as u64) * 256 + v2 as u64 + 1];
    let mut protocol = X::fresh();
    let got = <X as Shape31<'static, u8, X>>::reveal31(v0 as u16, &mut protocol, &[v2, v2 + 1][..]);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call31_5<X: Shape31<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v2 = v[1];
    let want: Vec<u64> = vec![tag, 31, 5, (2 * 256 + v0 as u64) * 256 + v0 as u64 + 1, v2 as u64];
    let mut protocol = X::fresh();
    let got = <X as Shape31<'static, u8, X>>::a31(&[v0, v0 + 1][..], &mut protocol, v2 as u16);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call31_6<X: Shape31<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v2 = v[1];
    let want: Vec<u64> = vec![tag, 31, 6, v0 as u64, (2 * 256 + v2 as u64) * 256 + v2 as u64 + 1];
    let mut protocol = X::fresh();
    let got = <X as Shape31<'static, u8, X>>::Upper31(v0 as u16, &mut protocol, &[v2, v2 + 1][..]);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call31_7<X: Shape31<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v2 = v[1];
    let want: Vec<u64> = vec![tag, 31, 7, (2 * 256 + v0 as u64) * 256 + v0 as u64 + 1, v2 as u64];
    let mut protocol = X::fresh();
    let got = <X as Shape31<'static, u8, X>>::snake_case_name_of_a_method31(&[v0, v0 + 1][..], &mut protocol, v2 as u16);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call31_8<X: Shape31<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v2 = v[1];
    let want: Vec<u64> = vec![tag, 31, 8, v0 as u64, (2 * 256 + v2 as u64) * 256 + v2 as u64 + 1];
    let mut protocol = X::fresh();
    let got = <X as Shape31<'static, u8, X>>::new31(v0 as u16, &mut protocol, &[v2, v2 + 1][..]);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call31_9<X: Shape31<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v2 = v[1];
    let want: Vec<u64> = vec![tag, 31, 9, (2 * 256 + v0 as u64) * 256 + v0 as u64 + 1, v2 as u64];
    let mut protocol = X::fresh();
    let got = <X as Shape31<'static, u8, X>>::delegate31(&[v0, v0 + 1][..], &mut protocol, v2 as u16);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call31_10<X: Shape31<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v2 = v[1];
    let want: Vec<u64> = vec![tag, 31, 10, v0 as u64, (2 * 256 + v2 as u64) * 256 + v2 as u64 + 1];
    let mut protocol = X::fresh();
    let got = <X as Shape31<'static, u8, X>>::p31(v0 as u16, &mut protocol, &[v2, v2 + 1][..]);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call31_11<X: Shape31<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v2 = v[1];
    let want: Vec<u64> = vec![tag, 31, 11, (2 * 256 + v0 as u64) * 256 + v0 as u64 + 1, v2 as u64];
    let mut protocol = X::fresh();
    let got = <X as Shape31<'static, u8, X>>::multiply31(&[v0, v0 + 1][..], &mut protocol, v2 as u16);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn default31<X: Shape31<'static, u8, X>+ Log + Send + Sync + 'static>(_: &[u8], _: u64) -> Outcome
{
    super::same("a default method", &<X as Shape31<'static, u8, X>>::twice31(), &2000)
}
/// slice, slice
#[delegatable_protocol]
trait Shape32<T, P, S>
where
    P: Log,
    S: IntoIterator<Item = T>,
    T: Into<u64>
{
    fn work32(rng0: &[u8], protocol1: &[u8],) -> Vec<u64>;
    /// documented
    fn apply32(protocol0: &[u8], lhs1: &[u8],) -> Vec<u64>;
    fn offset() -> u64 {
        1000
    }
    fn twice32() -> u64 {
        Self::offset() * 2
    }
}
pub struct Worker32<T, P, S>(PhantomData<T>, PhantomData<P>, PhantomData<S>);
impl<T, P, S> Shape32<T, P, S> for Worker32<T, P, S>
where
    P: Log,
    S: IntoIterator<Item = T>,
    T: Into<u64>
{
    fn work32(rng0: &[u8], protocol1: &[u8],) -> Vec<u64>
    {
        let e0: u64 = rng0.iter().fold(rng0.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = protocol1.iter().fold(protocol1.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![1, 32, 0, e0, e1]; r
    }
    fn apply32(protocol0: &[u8], lhs1: &[u8],) -> Vec<u64>
    {
        let e0: u64 = protocol0.iter().fold(protocol0.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = lhs1.iter().fold(lhs1.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![1, 32, 1, e0, e1]; r
    }
}
pub struct Decoy32<T, P, S>(PhantomData<T>, PhantomData<P>, PhantomData<S>);
impl<T, P, S> Shape32<T, P, S> for Decoy32<T, P, S>
where
    P: Log,
    S: IntoIterator<Item = T>,
    T: Into<u64>
{
    fn work32(rng0: &[u8], protocol1: &[u8],) -> Vec<u64>
    {
        let e0: u64 = rng0.iter().fold(rng0.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = protocol1.iter().fold(protocol1.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![3, 32, 0, e0, e1]; r
    }
    fn apply32(protocol0: &[u8], lhs1: &[u8],) -> Vec<u64>
    {
        let e0: u64 = protocol0.iter().fold(protocol0.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = lhs1.iter().fold(lhs1.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![3, 32, 1, e0, e1]; r
    }
}
impl Shape32Marker for Dele {
    type Marker = Delegate;
}
impl Shape32Delegate<u8, Dele, Vec<u8>> for Dele {
    type Delegate = Worker32<u8, Dele, Vec<u8>>;
}
impl Shape32Marker for Own {
    type Marker = OwnMarker;
}
impl Shape32Delegate<u8, Own, Vec<u8>> for Own {
    type Delegate = Decoy32<u8, Own, Vec<u8>>;
}
impl Shape32Impl<u8, Own, Vec<u8>, OwnMarker> for Own {
    fn work32(rng0: &[u8], protocol1: &[u8],) -> Vec<u64>
    {
        let e0: u64 = rng0.iter().fold(rng0.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = protocol1.iter().fold(protocol1.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![2, 32, 0, e0, e1]; r
    }
    fn apply32(protocol0: &[u8], lhs1: &[u8],) -> Vec<u64>
    {
        let e0: u64 = protocol0.iter().fold(protocol0.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = lhs1.iter().fold(lhs1.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![2, 32, 1, e0, e1]; r
    }
}
fn call32_0<X: Shape32<u8, X, Vec<u8>> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 32, 0, (2 * 256 + v0 as u64) * 256 + v0 as u64 + 1, (2 * 256 + v1 as u64) * 256 + v1 as u64 + 1];
    let got = <X as Shape32<u8, X, Vec<u8>>>::work32(&[v0, v0 + 1][..], &[v1, v1 + 1][..]);
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call32_1<X: Shape32<u8, X, Vec<u8>> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 32, 1, (2 * 256 + v0 as u64) * 256 + v0 as u64 + 1, (2 * 256 + v1 as u64) * 256 + v1 as u64 + 1];
    let got = <X as Shape32<u8, X, Vec<u8>>>::apply32(&[v0, v0 + 1][..], &[v1, v1 + 1][..]);
    super::same("the result", &got, &want)?;
    Ok(())
}
fn default32<X: Shape32<u8, X, Vec<u8>>+ Log + Send + Sync + 'static>(_: &[u8], _: u64) -> Outcome
{
    super::same("a default method", &<X as Shape32<u8, X, Vec<u8>>>::twice32(), &2000)
}
/// slice, slice
#[delegatable_protocol]
pub(crate) trait Shape33<Marked, Other, P>
where
    P: Log,
    Marked: Copy,
    Other: Copy,
{
    fn work33<'a>(right: &[u8], first: &[u8]) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    /// documented
    fn apply33<'a>(operand_a: &[u8], lhs: &[u8]) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    fn begin33<'a>(second: &[u8], bits: &[u8]) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
}
pub struct Worker33<Marked, Other, P>(PhantomData<Marked>, PhantomData<Other>, PhantomData<P>);
impl<Marked, Other, P> Shape33<Marked, Other, P> for Worker33<Marked, Other, P>
where
    P: Log,
    Marked: Copy,
    Other: Copy,
{
    fn work33<'a>(right: &[u8], first: &[u8]) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = right.iter().fold(right.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = first.iter().fold(first.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![1, 33, 0, e0, e1]; Box::pin(async move { r })
    }
    fn apply33<'a>(operand_a: &[u8], lhs: &[u8]) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = operand_a.iter().fold(operand_a.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = lhs.iter().fold(lhs.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![1, 33, 1, e0, e1]; Box::pin(async move { r })
    }
    fn begin33<'a>(second: &[u8], bits: &[u8]) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = second.iter().fold(second.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = bits.iter().fold(bits.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![1, 33, 2, e0, e1]; Box::pin(async move { r })
    }
}
pub struct Decoy33<Marked, Other, P>(PhantomData<Marked>, PhantomData<Other>, PhantomData<P>);
impl<Marked, Other, P> Shape33<Marked, Other, P> for Decoy33<Marked, Other, P>
where
    P: Log,
    Marked: Copy,
    Other: Copy,
{
    fn work33<'a>(right: &[u8], first: &[u8]) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = right.iter().fold(right.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = first.iter().fold(first.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![3, 33, 0, e0, e1]; Box::pin(async move { r })
    }
    fn apply33<'a>(operand_a: &[u8], lhs: &[u8]) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = operand_a.iter().fold(operand_a.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = lhs.iter().fold(lhs.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![3, 33, 1, e0, e1]; Box::pin(async move { r })
    }
    fn begin33<'a>(second: &[u8], bits: &[u8]) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = second.iter().fold(second.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = bits.iter().fold(bits.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![3, 33, 2, e0, e1]; Box::pin(async move { r })
    }
}
impl Shape33Marker for Dele {
    type Marker = Delegate;
}
impl Shape33Delegate<u8, u16, Dele> for Dele {
    type Delegate = Worker33<u8, u16, Dele>;
}
impl Shape33Marker for Own {
    type Marker = OwnMarker;
}
impl Shape33Delegate<u8, u16, Own> for Own {
    type Delegate = Decoy33<u8, u16, Own>;
}
impl Shape33Impl<u8, u16, Own, OwnMarker> for Own {
    fn work33<'a>(right: &[u8], first: &[u8]) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = right.iter().fold(right.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = first.iter().fold(first.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![2, 33, 0, e0, e1]; Box::pin(async move { r })
    }
    fn apply33<'a>(operand_a: &[u8], lhs: &[u8]) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = operand_a.iter().fold(operand_a.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = lhs.iter().fold(lhs.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![2, 33, 1, e0, e1]; Box::pin(async move { r })
    }
    fn begin33<'a>(second: &[u8], bits: &[u8]) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = second.iter().fold(second.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = bits.iter().fold(bits.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![2, 33, 2, e0, e1]; Box::pin(async move { r })
    }
}
fn call33_0<X: Shape33<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 33, 0, (2 * 256 + v0 as u64) * 256 + v0 as u64 + 1, (2 * 256 + v1 as u64) * 256 + v1 as u64 + 1];
    let got = block_on(<X as Shape33<u8, u16, X>>::work33(&[v0, v0 + 1][..], &[v1, v1 + 1][..]));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call33_1<X: Shape33<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 33, 1, (2 * 256 + v0 as u64) * 256 + v0 as u64 + 1, (2 * 256 + v1 as u64) * 256 + v1 as u64 + 1];
    let got = block_on(<X as Shape33<u8, u16, X>>::apply33(&[v0, v0 + 1][..], &[v1, v1 + 1][..]));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call33_2<X: Shape33<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 33, 2, (2 * 256 + v0 as u64) * 256 + v0 as u64 + 1, (2 * 256 + v1 as u64) * 256 + v1 as u64 + 1];
    let got = block_on(<X as Shape33<u8, u16, X>>::begin33(&[v0, v0 + 1][..], &[v1, v1 + 1][..]));
    super::same("the result", &got, &want)?;
    Ok(())
}
/// slice, u8, slice
#[delegatable_protocol]
pub(crate) trait Shape34<A, B, C, D, E, F, G, P>
where
    P: Log
{
    fn work34<'a>(rng0: &[u8], protocol1: u8, lhs2: &[u8],) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    /// documented
    fn apply34<'a>(protocol0: &[u8], lhs1: u8, rhs2: &[u8],) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    fn begin34<'a>(lhs0: &[u8], rhs1: u8, x2: &[u8],) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
}
pub struct Worker34<A, B, C, D, E, F, G, P>(PhantomData<A>, PhantomData<B>, PhantomData<C>, PhantomData<D>, PhantomData<E>, PhantomData<F>, PhantomData<G>, PhantomData<P>);
impl<A, B, C, D, E, F, G, P> Shape34<A, B, C, D, E, F, G, P> for Worker34<A, B, C, D, E, F, G, P>
where
    P: Log
{
    fn work34<'a>(rng0: &[u8], protocol1: u8, lhs2: &[u8],) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = rng0.iter().fold(rng0.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = protocol1 as u64; let e2: u64 = lhs2.iter().fold(lhs2.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![1, 34, 0, e0, e1, e2]; Box::pin(async move { r })
    }
    fn apply34<'a>(protocol0: &[u8], lhs1: u8, rhs2: &[u8],) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = protocol0.iter().fold(protocol0.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = lhs1 as u64; let e2: u64 = rhs2.iter().fold(rhs2.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![1, 34, 1, e0, e1, e2]; Box::pin(async move { r })
    }
    fn begin34<'a>(lhs0: &[u8], rhs1: u8, x2: &[u8],) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = lhs0.iter().fold(lhs0.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = rhs1 as u64; let e2: u64 = x2.iter().fold(x2.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![1, 34, 2, e0, e1, e2]; Box::pin(async move { r })
    }
}
pub struct Decoy34<A, B, C, D, E, F, G, P>(PhantomData<A>, PhantomData<B>, PhantomData<C>, PhantomData<D>, PhantomData<E>, PhantomData<F>, PhantomData<G>, PhantomData<P>);
impl<A, B, C, D, E, F, G, P> Shape34<A, B, C, D, E, F, G, P> for Decoy34<A, B, C, D, E, F, G, P>
where
    P: Log
{
    fn work34<'a>(rng0: &[u8], protocol1: u8, lhs2: &[u8],) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = rng0.iter().fold(rng0.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = protocol1 as u64; let e2: u64 = lhs2.iter().fold(lhs2.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![3, 34, 0, e0, e1, e2]; Box::pin(async move { r })
    }
    fn apply34<'a>(protocol0: &[u8], lhs1: u8, rhs2: &[u8],) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = protocol0.iter().fold(protocol0.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = lhs1 as u64; let e2: u64 = rhs2.iter().fold(rhs2.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![3, 34, 1, e0, e1, e2]; Box::pin(async move { r })
    }
    fn begin34<'a>(lhs0: &[u8], rhs1: u8, x2: &[u8],) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = lhs0.iter().fold(lhs0.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = rhs1 as u64; let e2: u64 = x2.iter().fold(x2.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![3, 34, 2, e0, e1, e2]; Box::pin(async move { r })
    }
}
impl Shape34Marker for Dele {
    type Marker = Delegate;
}
impl Shape34Delegate<u8, u16, u32, u64, i8, i16, i32, Dele> for Dele {
    type Delegate = Worker34<u8, u16, u32, u64, i8, i16, i32, Dele>;
}
impl Shape34Marker for Own {
    type Marker = OwnMarker;
}
impl Shape34Delegate<u8, u16, u32, u64, i8, i16, i32, Own> for Own {
    type Delegate = Decoy34<u8, u16, u32, u64, i8, i16, i32, Own>;
}
impl Shape34Impl<u8, u16, u32, u64, i8, i16, i32, Own, OwnMarker> for Own {
    fn work34<'a>(rng0: &[u8], protocol1: u8, lhs2: &[u8],) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = rng0.iter().fold(rng0.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = protocol1 as u64; let e2: u64 = lhs2.iter().fold(lhs2.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![2, 34, 0, e0, e1, e2]; Box::pin(async move { r })
    }
    fn apply34<'a>(protocol0: &[u8], lhs1: u8, rhs2: &[u8],) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = protocol0.iter().fold(protocol0.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = lhs1 as u64; let e2: u64 = rhs2.iter().fold(rhs2.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![2, 34, 1, e0, e1, e2]; Box::pin(async move { r })
    }
    fn begin34<'a>(lhs0: &[u8], rhs1: u8, x2: &[u8],) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = lhs0.iter().fold(lhs0.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = rhs1 as u64; let e2: u64 = x2.iter().fold(x2.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![2, 34, 2, e0, e1, e2]; Box::pin(async move { r })
    }
}
fn call34_0<X: Shape34<u8, u16, u32, u64, i8, i16, i32, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 34, 0, (2 * 256 + v0 as u64) * 256 + v0 as u64 + 1, v1 as u64, (2 * 256 + v2 as u64) * 256 + v2 as u64 + 1];
    let got = block_on(<X as Shape34<u8, u16, u32, u64, i8, i16, i32, X>>::work34(&[v0, v0 + 1][..], v1, &[v2, v2 + 1][..]));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call34_1<X: Shape34<u8, u16, u32, u64, i8, i16, i32, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 34, 1, (2 * 256 + v0 as u64) * 256 + v0 as u64 + 1, v1 as u64, (2 * 256 + v2 as u64) * 256 + v2 as u64 + 1];
    let got = block_on(<X as Shape34<u8, u16, u32, u64, i8, i16, i32, X>>::apply34(&[v0, v0 + 1][..], v1, &[v2, v2 + 1][..]));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call34_2<X: Shape34<u8, u16, u32, u64, i8, i16, i32, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 34, 2, (2 * 256 + v0 as u64) * 256 + v0 as u64 + 1, v1 as u64, (2 * 256 + v2 as u64) * 256 + v2 as u64 + 1];
    let got = block_on(<X as Shape34<u8, u16, u32, u64, i8, i16, i32, X>>::begin34(&[v0, v0 + 1][..], v1, &[v2, v2 + 1][..]));
    super::same("the result", &got, &want)?;
    Ok(())
}
/// slice, u8, slice
#[delegatable_protocol]
pub trait Shape35<T, S, P,>
where
    P: Log + Send,
    T: Send,
    S: Send
{
    fn work35(b: &[u8], condition: u8, secret: &[u8]) -> Result<Vec<u64>, String>;
}
pub struct Worker35<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape35<T, S, P> for Worker35<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send
{
    fn work35(b: &[u8], condition: u8, secret: &[u8]) -> Result<Vec<u64>, String>
    {
        let e0: u64 = b.iter().fold(b.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = condition as u64; let e2: u64 = secret.iter().fold(secret.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![1, 35, 0, e0, e1, e2]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
pub struct Decoy35<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape35<T, S, P> for Decoy35<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send
{
    fn work35(b: &[u8], condition: u8, secret: &[u8]) -> Result<Vec<u64>, String>
    {
        let e0: u64 = b.iter().fold(b.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = condition as u64; let e2: u64 = secret.iter().fold(secret.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![3, 35, 0, e0, e1, e2]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
impl Shape35Marker for Dele {
    type Marker = Delegate;
}
impl Shape35Delegate<u8, u16, Dele> for Dele {
    type Delegate = Worker35<u8, u16, Dele>;
}
impl Shape35Marker for Own {
    type Marker = OwnMarker;
}
impl Shape35Delegate<u8, u16, Own> for Own {
    type Delegate = Decoy35<u8, u16, Own>;
}
impl Shape35Impl<u8, u16, Own, OwnMarker> for Own {
    fn work35(b: &[u8], condition: u8, secret: &[u8]) -> Result<Vec<u64>, String>
    {
        let e0: u64 = b.iter().fold(b.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = condition as u64; let e2: u64 = secret.iter().fold(secret.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![2, 35, 0, e0, e1, e2]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
fn call35_0<X: Shape35<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 35, 0, (2 * 256 + v0 as u64) * 256 + v0 as u64 + 1, v1 as u64, (2 * 256 + v2 as u64) * 256 + v2 as u64 + 1];
    let got = <X as Shape35<u8, u16, X>>::work35(&[v0, v0 + 1][..], v1, &[v2, v2 + 1][..]);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
/// pair, pair
#[delegatable_protocol]
pub trait Shape36<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send,
{
    fn work36(rng0: (u8, u8), protocol1: (u8, u8)) -> Result<Vec<u64>, String>;
    /// documented
    fn apply36(protocol0: (u8, u8), lhs1: (u8, u8)) -> Result<Vec<u64>, String>;
    fn begin36(lhs0: (u8, u8), rhs1: (u8, u8)) -> Result<Vec<u64>, String>;
    /// documented
    fn zeta36(rhs0: (u8, u8), x1: (u8, u8)) -> Result<Vec<u64>, String>;
    fn reveal36(x0: (u8, u8), value_1: (u8, u8)) -> Result<Vec<u64>, String>;
    /// documented
    fn a36(value_0: (u8, u8), item1: (u8, u8)) -> Result<Vec<u64>, String>;
    fn Upper36(item0: (u8, u8), _unused1: (u8, u8)) -> Result<Vec<u64>, String>;
    /// documented
    fn snake_case_name_of_a_method36(_unused0: (u8, u8), self_1: (u8, u8)) -> Result<Vec<u64>, String>;
    fn new36(self_0: (u8, u8), r#type1: (u8, u8)) -> Result<Vec<u64>, String>;
    /// documented
    fn delegate36(r#type0: (u8, u8), rng1: (u8, u8)) -> Result<Vec<u64>, String>;
    fn p36(rng0: (u8, u8), protocol1: (u8, u8)) -> Result<Vec<u64>, String>;
    /// documented
    fn multiply36(protocol0: (u8, u8), lhs1: (u8, u8)) -> Result<Vec<u64>, String>;
}
pub struct Worker36<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape36<T, S, P> for Worker36<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send,
{
    fn work36(rng0: (u8, u8), protocol1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = rng0.0 as u64 * 256 + rng0.1 as u64; let e1: u64 = protocol1.0 as u64 * 256 + protocol1.1 as u64; let r: Vec<u64> = vec![1, 36, 0, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply36(protocol0: (u8, u8), lhs1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = protocol0.0 as u64 * 256 + protocol0.1 as u64; let e1: u64 = lhs1.0 as u64 * 256 + lhs1.1 as u64; let r: Vec<u64> = vec![1, 36, 1, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn begin36(lhs0: (u8, u8), rhs1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = lhs0.0 as u64 * 256 + lhs0.1 as u64; let e1: u64 = rhs1.0 as u64 * 256 + rhs1.1 as u64; let r: Vec<u64> = vec![1, 36, 2, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn zeta36(rhs0: (u8, u8), x1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = rhs0.0 as u64 * 256 + rhs0.1 as u64; let e1: u64 = x1.0 as u64 * 256 + x1.1 as u64; let r: Vec<u64> = vec![1, 36, 3, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn reveal36(x0: (u8, u8), value_1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = x0.0 as u64 * 256 + x0.1 as u64; let e1: u64 = value_1.0 as u64 * 256 + value_1.1 as u64; let r: Vec<u64> = vec![1, 36, 4, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn a36(value_0: (u8, u8), item1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = value_0.0 as u64 * 256 + value_0.1 as u64; let e1: u64 = item1.0 as u64 * 256 + item1.1 as u64; let r: Vec<u64> = vec![1, 36, 5, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn Upper36(item0: (u8, u8), _unused1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = item0.0 as u64 * 256 + item0.1 as u64; let e1: u64 = _unused1.0 as u64 * 256 + _unused1.1 as u64; let r: Vec<u64> = vec![1, 36, 6, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn snake_case_name_of_a_method36(_unused0: (u8, u8), self_1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = _unused0.0 as u64 * 256 + _unused0.1 as u64; let e1: u64 = self_1.0 as u64 * 256 + self_1.1 as u64; let r: Vec<u64> = vec![1, 36, 7, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn new36(self_0: (u8, u8), r#type1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = self_0.0 as u64 * 256 + self_0.1 as u64; let e1: u64 = r#type1.0 as u64 * 256 + r#type1.1 as u64; let r: Vec<u64> = vec![1, 36, 8, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn delegate36(r#type0: (u8, u8), rng1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = r#type0.0 as u64 * 256 + r#type0.1 as u64; let e1: u64 = rng1.0 as u64 * 256 + rng1.1 as u64; let r: Vec<u64> = vec![1, 36, 9, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn p36(rng0: (u8, u8), protocol1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = rng0.0 as u64 * 256 + rng0.1 as u64; let e1: u64 = protocol1.0 as u64 * 256 + protocol1.1 as u64; let r: Vec<u64> = vec![1, 36, 10, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn multiply36(protocol0: (u8, u8), lhs1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = protocol0.0 as u64 * 256 + protocol0.1 as u64; let e1: u64 = lhs1.0 as u64 * 256 + lhs1.1 as u64; let r: Vec<u64> = vec![1, 36, 11, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
pub struct Decoy36<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape36<T, S, P> for Decoy36<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send,
{
    fn work36(rng0: (u8, u8), protocol1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = rng0.0 as u64 * 256 + rng0.1 as u64; let e1: u64 = protocol1.0 as u64 * 256 + protocol1.1 as u64; let r: Vec<u64> = vec![3, 36, 0, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply36(protocol0: (u8, u8), lhs1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = protocol0.0 as u64 * 256 + protocol0.1 as u64; let e1: u64 = lhs1.0 as u64 * 256 + lhs1.1 as u64; let r: Vec<u64> = vec![3, 36, 1, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn begin36(lhs0: (u8, u8), rhs1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = lhs0.0 as u64 * 256 + lhs0.1 as u64; let e1: u64 = rhs1.0 as u64 * 256 + rhs1.1 as u64; let r: Vec<u64> = vec![3, 36, 2, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn zeta36(rhs0: (u8, u8), x1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = rhs0.0 as u64 * 256 + rhs0.1 as u64; let e1: u64 = x1.0 as u64 * 256 + x1.1 as u64; let r: Vec<u64> = vec![3, 36, 3, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn reveal36(x0: (u8, u8), value_1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = x0.0 as u64 * 256 + x0.1 as u64; let e1: u64 = value_1.0 as u64 * 256 + value_1.1 as u64; let r: Vec<u64> = vec![3, 36, 4, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn a36(value_0: (u8, u8), item1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = value_0.0 as u64 * 256 + value_0.1 as u64; let e1: u64 = item1.0 as u64 * 256 + item1.1 as u64; let r: Vec<u64> = vec![3, 36, 5, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn Upper36(item0: (u8, u8), _unused1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = item0.0 as u64 * 256 + item0.1 as u64; let e1: u64 = _unused1.0 as u64 * 256 + _unused1.1 as u64; let r: Vec<u64> = vec![3, 36, 6, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn snake_case_name_of_a_method36(_unused0: (u8, u8), self_1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = _unused0.0 as u64 * 256 + _unused0.1 as u64; let e1: u64 = self_1.0 as u64 * 256 + self_1.1 as u64; let r: Vec<u64> = vec![3, 36, 7, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn new36(self_0: (u8, u8), r#type1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = self_0.0 as u64 * 256 + self_0.1 as u64; let e1: u64 = r#type1.0 as u64 * 256 + r#type1.1 as u64; let r: Vec<u64> = vec![3, 36, 8, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn delegate36(r#type0: (u8, u8), rng1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = r#type0.0 as u64 * 256 + r#type0.1 as u64; let e1: u64 = rng1.0 as u64 * 256 + rng1.1 as u64; let r: Vec<u64> = vec![3, 36, 9, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn p36(rng0: (u8, u8), protocol1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = rng0.0 as u64 * 256 + rng0.1 as u64; let e1: u64 = protocol1.0 as u64 * 256 + protocol1.1 as u64; let r: Vec<u64> = vec![3, 36, 10, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn multiply36(protocol0: (u8, u8), lhs1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = protocol0.0 as u64 * 256 + protocol0.1 as u64; let e1: u64 = lhs1.0 as u64 * 256 + lhs1.1 as u64; let r: Vec<u64> = vec![3, 36, 11, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
impl Shape36Marker for Dele {
    type Marker = Delegate;
}
impl Shape36Delegate<u8, u16, Dele> for Dele {
    type Delegate = Worker36<u8, u16, Dele>;
}
impl Shape36Marker for Own {
    type Marker = OwnMarker;
}
impl Shape36Delegate<u8, u16, Own> for Own {
    type Delegate = Decoy36<u8, u16, Own>;
}
impl Shape36Impl<u8, u16, Own, OwnMarker> for Own {
    fn work36(rng0: (u8, u8), protocol1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = rng0.0 as u64 * 256 + rng0.1 as u64; let e1: u64 = protocol1.0 as u64 * 256 + protocol1.1 as u64; let r: Vec<u64> = vec![2, 36, 0, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply36(protocol0: (u8, u8), lhs1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = protocol0.0 as u64 * 256 + protocol0.1 as u64; let e1: u64 = lhs1.0 as u64 * 256 + lhs1.1 as u64; let r: Vec<u64> = vec![2, 36, 1, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn begin36(lhs0: (u8, u8), rhs1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = lhs0.0 as u64 * 256 + lhs0.1 as u64; let e1: u64 = rhs1.0 as u64 * 256 + rhs1.1 as u64; let r: Vec<u64> = vec![2, 36, 2, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn zeta36(rhs0: (u8, u8), x1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = rhs0.0 as u64 * 256 + rhs0.1 as u64; let e1: u64 = x1.0 as u64 * 256 + x1.1 as u64; let r: Vec<u64> = vec![2, 36, 3, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn reveal36(x0: (u8, u8), value_1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = x0.0 as u64 * 256 + x0.1 as u64; let e1: u64 = value_1.0 as u64 * 256 + value_1.1 as u64; let r: Vec<u64> = vec![2, 36, 4, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn a36(value_0: (u8, u8), item1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = value_0.0 as u64 * 256 + value_0.1 as u64; let e1: u64 = item1.0 as u64 * 256 + item1.1 as u64; let r: Vec<u64> = vec![2, 36, 5, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn Upper36(item0: (u8, u8), _unused1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = item0.0 as u64 * 256 + item0.1 as u64; let e1: u64 = _unused1.0 as u64 * 256 + _unused1.1 as u64; let r: Vec<u64> = vec![2, 36, 6, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn snake_case_name_of_a_method36(_unused0: (u8, u8), self_1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = _unused0.0 as u64 * 256 + _unused0.1 as u64; let e1: u64 = self_1.0 as u64 * 256 + self_1.1 as u64; let r: Vec<u64> = vec![2, 36, 7, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn new36(self_0: (u8, u8), r#type1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = self_0.0 as u64 * 256 + self_0.1 as u64; let e1: u64 = r#type1.0 as u64 * 256 + r#type1.1 as u64; let r: Vec<u64> = vec![2, 36, 8, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn delegate36(r#type0: (u8, u8), rng1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = r#type0.0 as u64 * 256 + r#type0.1 as u64; let e1: u64 = rng1.0 as u64 * 256 + rng1.1 as u64; let r: Vec<u64> = vec![2, 36, 9, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn p36(rng0: (u8, u8), protocol1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = rng0.0 as u64 * 256 + rng0.1 as u64; let e1: u64 = protocol1.0 as u64 * 256 + protocol1.1 as u64; let r: Vec<u64> = vec![2, 36, 10, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn multiply36(protocol0: (u8, u8), lhs1: (u8, u8)) -> Result<Vec<u64>, String>
    {
        let e0: u64 = protocol0.0 as u64 * 256 + protocol0.1 as u64; let e1: u64 = lhs1.0 as u64 * 256 + lhs1.1 as u64; let r: Vec<u64> = vec![2, 36, 11, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
fn call36_0<X: Shape36<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 36, 0, v0 as u64 * 256 + (v0 ^ 5) as u64, v1 as u64 * 256 + (v1 ^ 5) as u64];
    let got = <X as Shape36<u8, u16, X>>::work36((v0, v0 ^ 5), (v1, v1 ^ 5));
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call36_1<X: Shape36<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 36, 1, v0 as u64 * 256 + (v0 ^ 5) as u64, v1 as u64 * 256 + (v1 ^ 5) as u64];
    let got = <X as Shape36<u8, u16, X>>::apply36((v0, v0 ^ 5), (v1, v1 ^ 5));
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call36_2<X: Shape36<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 36, 2, v0 as u64 * 256 + (v0 ^ 5) as u64, v1 as u64 * 256 + (v1 ^ 5) as u64];
    let got = <X as Shape36<u8, u16, X>>::begin36((v0, v0 ^ 5), (v1, v1 ^ 5));
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call36_3<X: Shape36<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 36, 3, v0 as u64 * 256 + (v0 ^ 5) as u64, v1 as u64 * 256 + (v1 ^ 5) as u64];
    let got = <X as Shape36<u8, u16, X>>::zeta36((v0, v0 ^ 5), (v1, v1 ^ 5));
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call36_4<X: Shape36<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 36, 4, v0 as u64 * 256 + (v0 ^ 5) as u64, v1 as u64 * 256 + (v1 ^ 5) as u64];
    let got = <X as Shape36<u8, u16, X>>::reveal36((v0, v0 ^ 5), (v1, v1 ^ 5));
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call36_5<X: Shape36<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 36, 5, v0 as u64 * 256 + (v0 ^ 5) as u64, v1 as u64 * 256 + (v1 ^ 5) as u64];
    let got = <X as Shape36<u8, u16, X>>::a36((v0, v0 ^ 5), (v1, v1 ^ 5));
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call36_6<X: Shape36<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 36, 6, v0 as u64 * 256 + (v0 ^ 5) as u64, v1 as u64 * 256 + (v1 ^ 5) as u64];
    let got = <X as Shape36<u8, u16, X>>::Upper36((v0, v0 ^ 5), (v1, v1 ^ 5));
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call36_7<X: Shape36<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 36, 7, v0 as u64 * 256 + (v0 ^ 5) as u64, v1 as u64 * 256 + (v1 ^ 5) as u64];
    let got = <X as Shape36<u8, u16, X>>::snake_case_name_of_a_method36((v0, v0 ^ 5), (v1, v1 ^ 5));
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call36_8<X: Shape36<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 36, 8, v0 as u64 * 256 + (v0 ^ 5) as u64, v1 as u64 * 256 + (v1 ^ 5) as u64];
    let got = <X as Shape36<u8, u16, X>>::new36((v0, v0 ^ 5), (v1, v1 ^ 5));
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call36_9<X: Shape36<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 36, 9, v0 as u64 * 256 + (v0 ^ 5) as u64, v1 as u64 * 256 + (v1 ^ 5) as u64];
    let got = <X as Shape36<u8, u16, X>>::delegate36((v0, v0 ^ 5), (v1, v1 ^ 5));
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call36_10<X: Shape36<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 36, 10, v0 as u64 * 256 + (v0 ^ 5) as u64, v1 as u64 * 256 + (v1 ^ 5) as u64];
    let got = <X as Shape36<u8, u16, X>>::p36((v0, v0 ^ 5), (v1, v1 ^ 5));
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call36_11<X: Shape36<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 36, 11, v0 as u64 * 256 + (v0 ^ 5) as u64, v1 as u64 * 256 + (v1 ^ 5) as u64];
    let got = <X as Shape36<u8, u16, X>>::multiply36((v0, v0 ^ 5), (v1, v1 ^ 5));
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
/// pair, pair
#[delegatable_protocol]
trait Shape37<P,>
where
    P: Log,
{
    fn work37(operand_b: (u8, u8), rhs: (u8, u8),);
    /// documented
    fn apply37(condition: (u8, u8), secret: (u8, u8),);
}
pub struct Worker37<P>(PhantomData<P>);
impl<P> Shape37<P> for Worker37<P>
where
    P: Log,
{
    fn work37(operand_b: (u8, u8), rhs: (u8, u8),)
    {
        let e0: u64 = operand_b.0 as u64 * 256 + operand_b.1 as u64; let e1: u64 = rhs.0 as u64 * 256 + rhs.1 as u64; let r: Vec<u64> = vec![1, 37, 0, e0, e1]; super::note(r);
    }
    fn apply37(condition: (u8, u8), secret: (u8, u8),)
    {
        let e0: u64 = condition.0 as u64 * 256 + condition.1 as u64; let e1: u64 = secret.0 as u64 * 256 + secret.1 as u64; let r: Vec<u64> = vec![1, 37, 1, e0, e1]; super::note(r);
    }
}
pub struct Decoy37<P>(PhantomData<P>);
impl<P> Shape37<P> for Decoy37<P>
where
    P: Log,
{
    fn work37(operand_b: (u8, u8), rhs: (u8, u8),)
    {
        let e0: u64 = operand_b.0 as u64 * 256 + operand_b.1 as u64; let e1: u64 = rhs.0 as u64 * 256 + rhs.1 as u64; let r: Vec<u64> = vec![3, 37, 0, e0, e1]; super::note(r);
    }
    fn apply37(condition: (u8, u8), secret: (u8, u8),)
    {
        let e0: u64 = condition.0 as u64 * 256 + condition.1 as u64; let e1: u64 = secret.0 as u64 * 256 + secret.1 as u64; let r: Vec<u64> = vec![3, 37, 1, e0, e1]; super::note(r);
    }
}
impl Shape37Marker for Dele {
    type Marker = Delegate;
}
impl Shape37Delegate<Dele> for Dele {
    type Delegate = Worker37<Dele>;
}
impl Shape37Marker for Own {
    type Marker = OwnMarker;
}
impl Shape37Delegate<Own> for Own {
    type Delegate = Decoy37<Own>;
}
impl Shape37Impl<Own, OwnMarker> for Own {
    fn work37(operand_b: (u8, u8), rhs: (u8, u8),)
    {
        let e0: u64 = operand_b.0 as u64 * 256 + operand_b.1 as u64; let e1: u64 = rhs.0 as u64 * 256 + rhs.1 as u64; let r: Vec<u64> = vec![2, 37, 0, e0, e1]; super::note(r);
    }
    fn apply37(condition: (u8, u8), secret: (u8, u8),)
    {
        let e0: u64 = condition.0 as u64 * 256 + condition.1 as u64; let e1: u64 = secret.0 as u64 * 256 + secret.1 as u64; let r: Vec<u64> = vec![2, 37, 1, e0, e1]; super::note(r);
    }
}
fn call37_0<X: Shape37<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 37, 0, v0 as u64 * 256 + (v0 ^ 5) as u64, v1 as u64 * 256 + (v1 ^ 5) as u64];
    let got: () = <X as Shape37<X>>::work37((v0, v0 ^ 5), (v1, v1 ^ 5)); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call37_1<X: Shape37<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 37, 1, v0 as u64 * 256 + (v0 ^ 5) as u64, v1 as u64 * 256 + (v1 ^ 5) as u64];
    let got: () = <X as Shape37<X>>::apply37((v0, v0 ^ 5), (v1, v1 ^ 5)); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
/// pair, u8, pair
#[delegatable_protocol]
trait Shape38<P>
where
    P: Log
{
    fn work38(rng0: (u8, u8), protocol1: u8, lhs2: (u8, u8));
    /// documented
    fn apply38(protocol0: (u8, u8), lhs1: u8, rhs2: (u8, u8));
}
pub struct Worker38<P>(PhantomData<P>);
impl<P> Shape38<P> for Worker38<P>
where
    P: Log
{
    fn work38(rng0: (u8, u8), protocol1: u8, lhs2: (u8, u8))
    {
        let e0: u64 = rng0.0 as u64 * 256 + rng0.1 as u64; let e1: u64 = protocol1 as u64; let e2: u64 = lhs2.0 as u64 * 256 + lhs2.1 as u64; let r: Vec<u64> = vec![1, 38, 0, e0, e1, e2]; super::note(r);
    }
    fn apply38(protocol0: (u8, u8), lhs1: u8, rhs2: (u8, u8))
    {
        let e0: u64 = protocol0.0 as u64 * 256 + protocol0.1 as u64; let e1: u64 = lhs1 as u64; let e2: u64 = rhs2.0 as u64 * 256 + rhs2.1 as u64; let r: Vec<u64> = vec![1, 38, 1, e0, e1, e2]; super::note(r);
    }
}
pub struct Decoy38<P>(PhantomData<P>);
impl<P> Shape38<P> for Decoy38<P>
where
    P: Log
{
    fn work38(rng0: (u8, u8), protocol1: u8, lhs2: (u8, u8))
    {
        let e0: u64 = rng0.0 as u64 * 256 + rng0.1 as u64; let e1: u64 = protocol1 as u64; let e2: u64 = lhs2.0 as u64 * 256 + lhs2.1 as u64; let r: Vec<u64> = vec![3, 38, 0, e0, e1, e2]; super::note(r);
    }
    fn apply38(protocol0: (u8, u8), lhs1: u8, rhs2: (u8, u8))
    {
        let e0: u64 = protocol0.0 as u64 * 256 + protocol0.1 as u64; let e1: u64 = lhs1 as u64; let e2: u64 = rhs2.0 as u64 * 256 + rhs2.1 as u64; let r: Vec<u64> = vec![3, 38, 1, e0, e1, e2]; super::note(r);
    }
}
impl Shape38Marker for Dele {
    type Marker = Delegate;
}
impl Shape38Delegate<Dele> for Dele {
    type Delegate = Worker38<Dele>;
}
impl Shape38Marker for Own {
    type Marker = OwnMarker;
}
impl Shape38Delegate<Own> for Own {
    type Delegate = Decoy38<Own>;
}
impl Shape38Impl<Own, OwnMarker> for Own {
    fn work38(rng0: (u8, u8), protocol1: u8, lhs2: (u8, u8))
    {
        let e0: u64 = rng0.0 as u64 * 256 + rng0.1 as u64; let e1: u64 = protocol1 as u64; let e2: u64 = lhs2.0 as u64 * 256 + lhs2.1 as u64; let r: Vec<u64> = vec![2, 38, 0, e0, e1, e2]; super::note(r);
    }
    fn apply38(protocol0: (u8, u8), lhs1: u8, rhs2: (u8, u8))
    {
        let e0: u64 = protocol0.0 as u64 * 256 + protocol0.1 as u64; let e1: u64 = lhs1 as u64; let e2: u64 = rhs2.0 as u64 * 256 + rhs2.1 as u64; let r: Vec<u64> = vec![2, 38, 1, e0, e1, e2]; super::note(r);
    }
}
fn call38_0<X: Shape38<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 38, 0, v0 as u64 * 256 + (v0 ^ 5) as u64, v1 as u64, v2 as u64 * 256 + (v2 ^ 5) as u64];
    let got: () = <X as Shape38<X>>::work38((v0, v0 ^ 5), v1, (v2, v2 ^ 5)); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call38_1<X: Shape38<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 38, 1, v0 as u64 * 256 + (v0 ^ 5) as u64, v1 as u64, v2 as u64 * 256 + (v2 ^ 5) as u64];
    let got: () = <X as Shape38<X>>::apply38((v0, v0 ^ 5), v1, (v2, v2 ^ 5)); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
/// pair, u8, pair
#[delegatable_protocol]
pub(crate) trait Shape39<T, P, S>
where
    P: Log,
    S: IntoIterator<Item = T>,
    T: Into<u64>
{
    fn work39(second: (u8, u8), bits: u8, shares: (u8, u8),) -> Vec<u64>;
    /// documented
    fn apply39(rhs: (u8, u8), rng: u8, values: (u8, u8),) -> Vec<u64>;
    fn begin39(secret: (u8, u8), threshold: u8, P: (u8, u8),) -> Vec<u64>;
    fn offset() -> u64 {
        1000
    }
    fn twice39() -> u64 {
        Self::offset() * 2
    }
}
pub struct Worker39<T, P, S>(PhantomData<T>, PhantomData<P>, PhantomData<S>);
impl<T, P, S> Shape39<T, P, S> for Worker39<T, P, S>
where
    P: Log,
    S: IntoIterator<Item = T>,
    T: Into<u64>
{
    fn work39(second: (u8, u8), bits: u8, shares: (u8, u8),) -> Vec<u64>
    {
        let e0: u64 = second.0 as u64 * 256 + second.1 as u64; let e1: u64 = bits as u64; let e2: u64 = shares.0 as u64 * 256 + shares.1 as u64; let r: Vec<u64> = vec![1, 39, 0, e0, e1, e2]; r
    }
    fn apply39(rhs: (u8, u8), rng: u8, values: (u8, u8),) -> Vec<u64>
    {
        let e0: u64 = rhs.0 as u64 * 256 + rhs.1 as u64; let e1: u64 = rng as u64; let e2: u64 = values.0 as u64 * 256 + values.1 as u64; let r: Vec<u64> = vec![1, 39, 1, e0, e1, e2]; r
    }
    fn begin39(secret: (u8, u8), threshold: u8, P: (u8, u8),) -> Vec<u64>
    {
        let e0: u64 = secret.0 as u64 * 256 + secret.1 as u64; let e1: u64 = threshold as u64; let e2: u64 = P.0 as u64 * 256 + P.1 as u64; let r: Vec<u64> = vec![1, 39, 2, e0, e1, e2]; r
    }
}
pub struct Decoy39<T, P, S>(PhantomData<T>, PhantomData<P>, PhantomData<S>);
impl<T, P, S> Shape39<T, P, S> for Decoy39<T, P, S>
where
    P: Log,
    S: IntoIterator<Item = T>,
    T: Into<u64>
{
    fn work39(second: (u8, u8), bits: u8, shares: (u8, u8),) -> Vec<u64>
    {
        let e0: u64 = second.0 as u64 * 256 + second.1 as u64; let e1: u64 = bits as u64; let e2: u64 = shares.0 as u64 * 256 + shares.1 as u64; let r: Vec<u64> = vec![3, 39, 0, e0, e1, e2]; r
    }
    fn apply39(rhs: (u8, u8), rng: u8, values: (u8, u8),) -> Vec<u64>
    {
        let e0: u64 = rhs.0 as u64 * 256 + rhs.1 as u64; let e1: u64 = rng as u64; let e2: u64 = values.0 as u64 * 256 + values.1 as u64; let r: Vec<u64> = vec![3, 39, 1, e0, e1, e2]; r
    }
    fn begin39(secret: (u8, u8), threshold: u8, P: (u8, u8),) -> Vec<u64>
    {
        let e0: u64 = secret.0 as u64 * 256 + secret.1 as u64; let e1: u64 = threshold as u64; let e2: u64 = P.0 as u64 * 256 + P.1 as u64; let r: Vec<u64> = vec![3, 39, 2, e0, e1, e2]; r
    }
}
impl Shape39Marker for Dele {
    type Marker = Delegate;
}
impl Shape39Delegate<u8, Dele, Vec<u8>> for Dele {
    type Delegate = Worker39<u8, Dele, Vec<u8>>;
}
impl Shape39Marker for Own {
    type Marker = OwnMarker;
}
impl Shape39Delegate<u8, Own, Vec<u8>> for Own {
    type Delegate = Decoy39<u8, Own, Vec<u8>>;
}
impl Shape39Impl<u8, Own, Vec<u8>, OwnMarker> for Own {
    fn work39(second: (u8, u8), bits: u8, shares: (u8, u8),) -> Vec<u64>
    {
        let e0: u64 = second.0 as u64 * 256 + second.1 as u64; let e1: u64 = bits as u64; let e2: u64 = shares.0 as u64 * 256 + shares.1 as u64; let r: Vec<u64> = vec![2, 39, 0, e0, e1, e2]; r
    }
    fn apply39(rhs: (u8, u8), rng: u8, values: (u8, u8),) -> Vec<u64>
    {
        let e0: u64 = rhs.0 as u64 * 256 + rhs.1 as u64; let e1: u64 = rng as u64; let e2: u64 = values.0 as u64 * 256 + values.1 as u64; let r: Vec<u64> = vec![2, 39, 1, e0, e1, e2]; r
    }
    fn begin39(secret: (u8, u8), threshold: u8, P: (u8, u8),) -> Vec<u64>
    {
        let e0: u64 = secret.0 as u64 * 256 + secret.1 as u64; let e1: u64 = threshold as u64; let e2: u64 = P.0 as u64 * 256 + P.1 as u64; let r: Vec<u64> = vec![2, 39, 2, e0, e1, e2]; r
    }
}
fn call39_0<X: Shape39<u8, X, Vec<u8>> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 39, 0, v0 as u64 * 256 + (v0 ^ 5) as u64, v1 as u64, v2 as u64 * 256 + (v2 ^ 5) as u64];
    let got = <X as Shape39<u8, X, Vec<u8>>>::work39((v0, v0 ^ 5), v1, (v2, v2 ^ 5));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call39_1<X: Shape39<u8, X, Vec<u8>> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 39, 1, v0 as u64 * 256 + (v0 ^ 5) as u64, v1 as u64, v2 as u64 * 256 + (v2 ^ 5) as u64];
    let got = <X as Shape39<u8, X, Vec<u8>>>::apply39((v0, v0 ^ 5), v1, (v2, v2 ^ 5));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call39_2<X: Shape39<u8, X, Vec<u8>> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 39, 2, v0 as u64 * 256 + (v0 ^ 5) as u64, v1 as u64, v2 as u64 * 256 + (v2 ^ 5) as u64];
    let got = <X as Shape39<u8, X, Vec<u8>>>::begin39((v0, v0 ^ 5), v1, (v2, v2 ^ 5));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn default39<X: Shape39<u8, X, Vec<u8>>+ Log + Send + Sync + 'static>(_: &[u8], _: u64) -> Outcome
{
    super::same("a default method", &<X as Shape39<u8, X, Vec<u8>>>::twice39(), &2000)
}
/// opt, opt
#[delegatable_protocol]
pub(crate) trait Shape40<P, T>
where
    P: Log + Send + Sync,
    T: Clone + 'static,
{
    fn work40(rng0: Option<u8>, protocol1: Option<u8>,) -> Vec<u64>;
    /// documented
    fn apply40(protocol0: Option<u8>, lhs1: Option<u8>,) -> Vec<u64>;
    fn begin40(lhs0: Option<u8>, rhs1: Option<u8>,) -> Vec<u64>;
    fn offset() -> u64 {
        1000
    }
    fn twice40() -> u64 {
        Self::offset() * 2
    }
}
pub struct Worker40<P, T>(PhantomData<P>, PhantomData<T>);
impl<P, T> Shape40<P, T> for Worker40<P, T>
where
    P: Log + Send + Sync,
    T: Clone + 'static,
{
    fn work40(rng0: Option<u8>, protocol1: Option<u8>,) -> Vec<u64>
    {
        let e0: u64 = rng0.map_or(77, |x| x as u64); let e1: u64 = protocol1.map_or(77, |x| x as u64); let r: Vec<u64> = vec![1, 40, 0, e0, e1]; r
    }
    fn apply40(protocol0: Option<u8>, lhs1: Option<u8>,) -> Vec<u64>
    {
        let e0: u64 = protocol0.map_or(77, |x| x as u64); let e1: u64 = lhs1.map_or(77, |x| x as u64); let r: Vec<u64> = vec![1, 40, 1, e0, e1]; r
    }
    fn begin40(lhs0: Option<u8>, rhs1: Option<u8>,) -> Vec<u64>
    {
        let e0: u64 = lhs0.map_or(77, |x| x as u64); let e1: u64 = rhs1.map_or(77, |x| x as u64); let r: Vec<u64> = vec![1, 40, 2, e0, e1]; r
    }
}
pub struct Decoy40<P, T>(PhantomData<P>, PhantomData<T>);
impl<P, T> Shape40<P, T> for Decoy40<P, T>
where
    P: Log + Send + Sync,
    T: Clone + 'static,
{
    fn work40(rng0: Option<u8>, protocol1: Option<u8>,) -> Vec<u64>
    {
        let e0: u64 = rng0.map_or(77, |x| x as u64); let e1: u64 = protocol1.map_or(77, |x| x as u64); let r: Vec<u64> = vec![3, 40, 0, e0, e1]; r
    }
    fn apply40(protocol0: Option<u8>, lhs1: Option<u8>,) -> Vec<u64>
    {
        let e0: u64 = protocol0.map_or(77, |x| x as u64); let e1: u64 = lhs1.map_or(77, |x| x as u64); let r: Vec<u64> = vec![3, 40, 1, e0, e1]; r
    }
    fn begin40(lhs0: Option<u8>, rhs1: Option<u8>,) -> Vec<u64>
    {
        let e0: u64 = lhs0.map_or(77, |x| x as u64); let e1: u64 = rhs1.map_or(77, |x| x as u64); let r: Vec<u64> = vec![3, 40, 2, e0, e1]; r
    }
}
impl Shape40Marker for Dele {
    type Marker = Delegate;
}
impl Shape40Delegate<Dele, u8> for Dele {
    type Delegate = Worker40<Dele, u8>;
}
impl Shape40Marker for Own {
    type Marker = OwnMarker;
}
impl Shape40Delegate<Own, u8> for Own {
    type Delegate = Decoy40<Own, u8>;
}
impl Shape40Impl<Own, u8, OwnMarker> for Own {
    fn work40(rng0: Option<u8>, protocol1: Option<u8>,) -> Vec<u64>
    {
        let e0: u64 = rng0.map_or(77, |x| x as u64); let e1: u64 = protocol1.map_or(77, |x| x as u64); let r: Vec<u64> = vec![2, 40, 0, e0, e1]; r
    }
    fn apply40(protocol0: Option<u8>, lhs1: Option<u8>,) -> Vec<u64>
    {
        let e0: u64 = protocol0.map_or(77, |x| x as u64); let e1: u64 = lhs1.map_or(77, |x| x as u64); let r: Vec<u64> = vec![2, 40, 1, e0, e1]; r
    }
    fn begin40(lhs0: Option<u8>, rhs1: Option<u8>,) -> Vec<u64>
    {
        let e0: u64 = lhs0.map_or(77, |x| x as u64); let e1: u64 = rhs1.map_or(77, |x| x as u64); let r: Vec<u64> = vec![2, 40, 2, e0, e1]; r
    }
}
fn call40_0<X: Shape40<X, u8> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 40, 0, if v0 == 0 { 77 } else { v0 as u64 }, if v1 == 0 { 77 } else { v1 as u64 }];
    let got = <X as Shape40<X, u8>>::work40(if v0 == 0 { None } else { Some(v0) }, if v1 == 0 { None } else { Some(v1) });
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call40_1<X: Shape40<X, u8> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 40, 1, if v0 == 0 { 77 } else { v0 as u64 }, if v1 == 0 { 77 } else { v1 as u64 }];
    let got = <X as Shape40<X, u8>>::apply40(if v0 == 0 { None } else { Some(v0) }, if v1 == 0 { None } else { Some(v1) });
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call40_2<X: Shape40<X, u8> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 40, 2, if v0 == 0 { 77 } else { v0 as u64 }, if v1 == 0 { 77 } else { v1 as u64 }];
    let got = <X as Shape40<X, u8>>::begin40(if v0 == 0 { None } else { Some(v0) }, if v1 == 0 { None } else { Some(v1) });
    super::same("the result", &got, &want)?;
    Ok(())
}
fn default40<X: Shape40<X, u8>+ Log + Send + Sync + 'static>(_: &[u8], _: u64) -> Outcome
{
    super::same("a default method", &<X as Shape40<X, u8>>::twice40(), &2000)
}
/// opt, opt
#[delegatable_protocol]
pub trait Shape41<A, B, C, D, E, F, G, P>
where
    P: Log
{
    fn work41<'a>(lhs: Option<u8>, count: Option<u8>) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
}
pub struct Worker41<A, B, C, D, E, F, G, P>(PhantomData<A>, PhantomData<B>, PhantomData<C>, PhantomData<D>, PhantomData<E>, PhantomData<F>, PhantomData<G>, PhantomData<P>);
impl<A, B, C, D, E, F, G, P> Shape41<A, B, C, D, E, F, G, P> for Worker41<A, B, C, D, E, F, G, P>
where
    P: Log
{
    fn work41<'a>(lhs: Option<u8>, count: Option<u8>) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = lhs.map_or(77, |x| x as u64); let e1: u64 = count.map_or(77, |x| x as u64); let r: Vec<u64> = vec![1, 41, 0, e0, e1]; Box::pin(async move { r })
    }
}
pub struct Decoy41<A, B, C, D, E, F, G, P>(PhantomData<A>, PhantomData<B>, PhantomData<C>, PhantomData<D>, PhantomData<E>, PhantomData<F>, PhantomData<G>, PhantomData<P>);
impl<A, B, C, D, E, F, G, P> Shape41<A, B, C, D, E, F, G, P> for Decoy41<A, B, C, D, E, F, G, P>
where
    P: Log
{
    fn work41<'a>(lhs: Option<u8>, count: Option<u8>) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = lhs.map_or(77, |x| x as u64); let e1: u64 = count.map_or(77, |x| x as u64); let r: Vec<u64> = vec![3, 41, 0, e0, e1]; Box::pin(async move { r })
    }
}
impl Shape41Marker for Dele {
    type Marker = Delegate;
}
impl Shape41Delegate<u8, u16, u32, u64, i8, i16, i32, Dele> for Dele {
    type Delegate = Worker41<u8, u16, u32, u64, i8, i16, i32, Dele>;
}
impl Shape41Marker for Own {
    type Marker = OwnMarker;
}
impl Shape41Delegate<u8, u16, u32, u64, i8, i16, i32, Own> for Own {
    type Delegate = Decoy41<u8, u16, u32, u64, i8, i16, i32, Own>;
}
impl Shape41Impl<u8, u16, u32, u64, i8, i16, i32, Own, OwnMarker> for Own {
    fn work41<'a>(lhs: Option<u8>, count: Option<u8>) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = lhs.map_or(77, |x| x as u64); let e1: u64 = count.map_or(77, |x| x as u64); let r: Vec<u64> = vec![2, 41, 0, e0, e1]; Box::pin(async move { r })
    }
}
fn call41_0<X: Shape41<u8, u16, u32, u64, i8, i16, i32, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 41, 0, if v0 == 0 { 77 } else { v0 as u64 }, if v1 == 0 { 77 } else { v1 as u64 }];
    let got = block_on(<X as Shape41<u8, u16, u32, u64, i8, i16, i32, X>>::work41(if v0 == 0 { None } else { Some(v0) }, if v1 == 0 { None } else { Some(v1) }));
    super::same("the result", &got, &want)?;
    Ok(())
}
/// string, string, u8
#[delegatable_protocol]
pub trait Shape42<'b, T, P>
where
    P: Log,
    T: Send
{
    fn work42<'a>(rng0: String, protocol1: String, lhs2: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
}
pub struct Worker42<'b, T, P>(PhantomData<&'b ()>, PhantomData<T>, PhantomData<P>);
impl<'b, T, P> Shape42<'b, T, P> for Worker42<'b, T, P>
where
    P: Log,
    T: Send
{
    fn work42<'a>(rng0: String, protocol1: String, lhs2: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = rng0.len() as u64; let e1: u64 = protocol1.len() as u64; let e2: u64 = lhs2 as u64; let r: Vec<u64> = vec![1, 42, 0, e0, e1, e2]; Box::pin(async move { r })
    }
}
pub struct Decoy42<'b, T, P>(PhantomData<&'b ()>, PhantomData<T>, PhantomData<P>);
impl<'b, T, P> Shape42<'b, T, P> for Decoy42<'b, T, P>
where
    P: Log,
    T: Send
{
    fn work42<'a>(rng0: String, protocol1: String, lhs2: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = rng0.len() as u64; let e1: u64 = protocol1.len() as u64; let e2: u64 = lhs2 as u64; let r: Vec<u64> = vec![3, 42, 0, e0, e1, e2]; Box::pin(async move { r })
    }
}
impl Shape42Marker for Dele {
    type Marker = Delegate;
}
impl Shape42Delegate<'static, u8, Dele> for Dele {
    type Delegate = Worker42<'static, u8, Dele>;
}
impl Shape42Marker for Own {
    type Marker = OwnMarker;
}
impl Shape42Delegate<'static, u8, Own> for Own {
    type Delegate = Decoy42<'static, u8, Own>;
}
impl Shape42Impl<'static, u8, Own, OwnMarker> for Own {
    fn work42<'a>(rng0: String, protocol1: String, lhs2: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = rng0.len() as u64; let e1: u64 = protocol1.len() as u64; let e2: u64 = lhs2 as u64; let r: Vec<u64> = vec![2, 42, 0, e0, e1, e2]; Box::pin(async move { r })
    }
}
fn call42_0<X: Shape42<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 42, 0, v0 as u64, v1 as u64, v2 as u64];
    let got = block_on(<X as Shape42<'static, u8, X>>::work42("x".repeat(v0 as usize), "x".repeat(v1 as usize), v2));
    super::same("the result", &got, &want)?;
    Ok(())
}
/// string, string, u8
#[delegatable_protocol]
trait Shape43<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send,
{
    fn work43(elements: String, protocol: String, other: u8) -> Result<Vec<u64>, String>;
    /// documented
    fn apply43(count: u8, index: String, marker: String) -> Result<Vec<u64>, String>;
}
pub struct Worker43<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape43<T, S, P> for Worker43<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send,
{
    fn work43(elements: String, protocol: String, other: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = elements.len() as u64; let e1: u64 = protocol.len() as u64; let e2: u64 = other as u64; let r: Vec<u64> = vec![1, 43, 0, e0, e1, e2]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply43(count: u8, index: String, marker: String) -> Result<Vec<u64>, String>
    {
        let e0: u64 = count as u64; let e1: u64 = index.len() as u64; let e2: u64 = marker.len() as u64; let r: Vec<u64> = vec![1, 43, 1, e0, e1, e2]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
pub struct Decoy43<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape43<T, S, P> for Decoy43<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send,
{
    fn work43(elements: String, protocol: String, other: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = elements.len() as u64; let e1: u64 = protocol.len() as u64; let e2: u64 = other as u64; let r: Vec<u64> = vec![3, 43, 0, e0, e1, e2]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply43(count: u8, index: String, marker: String) -> Result<Vec<u64>, String>
    {
        let e0: u64 = count as u64; let e1: u64 = index.len() as u64; let e2: u64 = marker.len() as u64; let r: Vec<u64> = vec![3, 43, 1, e0, e1, e2]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
impl Shape43Marker for Dele {
    type Marker = Delegate;
}
impl Shape43Delegate<u8, u16, Dele> for Dele {
    type Delegate = Worker43<u8, u16, Dele>;
}
impl Shape43Marker for Own {
    type Marker = OwnMarker;
}
impl Shape43Delegate<u8, u16, Own> for Own {
    type Delegate = Decoy43<u8, u16, Own>;
}
impl Shape43Impl<u8, u16, Own, OwnMarker> for Own {
    fn work43(elements: String, protocol: String, other: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = elements.len() as u64; let e1: u64 = protocol.len() as u64; let e2: u64 = other as u64; let r: Vec<u64> = vec![2, 43, 0, e0, e1, e2]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply43(count: u8, index: String, marker: String) -> Result<Vec<u64>, String>
    {
        let e0: u64 = count as u64; let e1: u64 = index.len() as u64; let e2: u64 = marker.len() as u64; let r: Vec<u64> = vec![2, 43, 1, e0, e1, e2]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
fn call43_0<X: Shape43<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 43, 0, v0 as u64, v1 as u64, v2 as u64];
    let got = <X as Shape43<u8, u16, X>>::work43("x".repeat(v0 as usize), "x".repeat(v1 as usize), v2);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call43_1<X: Shape43<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 43, 1, v0 as u64, v1 as u64, v2 as u64];
    let got = <X as Shape43<u8, u16, X>>::apply43(v0, "x".repeat(v1 as usize), "x".repeat(v2 as usize));
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
/// mut, mut
#[delegatable_protocol]
trait Shape44<Marked, Other, P>
where
    P: Log,
    Marked: Copy,
    Other: Copy,
{
    fn work44(rng0: &mut u8, protocol1: &mut u8) -> Result<Vec<u64>, String>;
    /// documented
    fn apply44(protocol0: &mut u8, lhs1: &mut u8) -> Result<Vec<u64>, String>;
}
pub struct Worker44<Marked, Other, P>(PhantomData<Marked>, PhantomData<Other>, PhantomData<P>);
impl<Marked, Other, P> Shape44<Marked, Other, P> for Worker44<Marked, Other, P>
where
    P: Log,
    Marked: Copy,
    Other: Copy,
{
    fn work44(rng0: &mut u8, protocol1: &mut u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = { *rng0 += 10; *rng0 as u64 - 10 }; let e1: u64 = { *protocol1 += 10; *protocol1 as u64 - 10 }; let r: Vec<u64> = vec![1, 44, 0, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply44(protocol0: &mut u8, lhs1: &mut u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = { *protocol0 += 10; *protocol0 as u64 - 10 }; let e1: u64 = { *lhs1 += 10; *lhs1 as u64 - 10 }; let r: Vec<u64> = vec![1, 44, 1, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
pub struct Decoy44<Marked, Other, P>(PhantomData<Marked>, PhantomData<Other>, PhantomData<P>);
impl<Marked, Other, P> Shape44<Marked, Other, P> for Decoy44<Marked, Other, P>
where
    P: Log,
    Marked: Copy,
    Other: Copy,
{
    fn work44(rng0: &mut u8, protocol1: &mut u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = { *rng0 += 10; *rng0 as u64 - 10 }; let e1: u64 = { *protocol1 += 10; *protocol1 as u64 - 10 }; let r: Vec<u64> = vec![3, 44, 0, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply44(protocol0: &mut u8, lhs1: &mut u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = { *protocol0 += 10; *protocol0 as u64 - 10 }; let e1: u64 = { *lhs1 += 10; *lhs1 as u64 - 10 }; let r: Vec<u64> = vec![3, 44, 1, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
impl Shape44Marker for Dele {
    type Marker = Delegate;
}
impl Shape44Delegate<u8, u16, Dele> for Dele {
    type Delegate = Worker44<u8, u16, Dele>;
}
impl Shape44Marker for Own {
    type Marker = OwnMarker;
}
impl Shape44Delegate<u8, u16, Own> for Own {
    type Delegate = Decoy44<u8, u16, Own>;
}
impl Shape44Impl<u8, u16, Own, OwnMarker> for Own {
    fn work44(rng0: &mut u8, protocol1: &mut u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = { *rng0 += 10; *rng0 as u64 - 10 }; let e1: u64 = { *protocol1 += 10; *protocol1 as u64 - 10 }; let r: Vec<u64> = vec![2, 44, 0, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply44(protocol0: &mut u8, lhs1: &mut u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = { *protocol0 += 10; *protocol0 as u64 - 10 }; let e1: u64 = { *lhs1 += 10; *lhs1 as u64 - 10 }; let r: Vec<u64> = vec![2, 44, 1, e0, e1]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
fn call44_0<X: Shape44<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 44, 0, v0 as u64, v1 as u64];
    let v0_before = v0;
    let v1_before = v1;
    let got = <X as Shape44<u8, u16, X>>::work44(&mut v0, &mut v1);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    super::same("a changed argument", &v0, &(v0_before + 10))?;
    super::same("a changed argument", &v1, &(v1_before + 10))?;
    Ok(())
}
fn call44_1<X: Shape44<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 44, 1, v0 as u64, v1 as u64];
    let v0_before = v0;
    let v1_before = v1;
    let got = <X as Shape44<u8, u16, X>>::apply44(&mut v0, &mut v1);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    super::same("a changed argument", &v0, &(v0_before + 10))?;
    super::same("a changed argument", &v1, &(v1_before + 10))?;
    Ok(())
}
/// mut, mut
#[delegatable_protocol]
pub(crate) trait Shape45<P>
where
    P: Log
{
    fn work45(secret: &mut u8, threshold: &mut u8,);
    /// documented
    fn apply45(protocol: &mut u8, other: &mut u8,);
    fn begin45(index: &mut u8, marker: &mut u8,);
}
pub struct Worker45<P>(PhantomData<P>);
impl<P> Shape45<P> for Worker45<P>
where
    P: Log
{
    fn work45(secret: &mut u8, threshold: &mut u8,)
    {
        let e0: u64 = { *secret += 10; *secret as u64 - 10 }; let e1: u64 = { *threshold += 10; *threshold as u64 - 10 }; let r: Vec<u64> = vec![1, 45, 0, e0, e1]; super::note(r);
    }
    fn apply45(protocol: &mut u8, other: &mut u8,)
    {
        let e0: u64 = { *protocol += 10; *protocol as u64 - 10 }; let e1: u64 = { *other += 10; *other as u64 - 10 }; let r: Vec<u64> = vec![1, 45, 1, e0, e1]; super::note(r);
    }
    fn begin45(index: &mut u8, marker: &mut u8,)
    {
        let e0: u64 = { *index += 10; *index as u64 - 10 }; let e1: u64 = { *marker += 10; *marker as u64 - 10 }; let r: Vec<u64> = vec![1, 45, 2, e0, e1]; super::note(r);
    }
}
pub struct Decoy45<P>(PhantomData<P>);
impl<P> Shape45<P> for Decoy45<P>
where
    P: Log
{
    fn work45(secret: &mut u8, threshold: &mut u8,)
    {
        let e0: u64 = { *secret += 10; *secret as u64 - 10 }; let e1: u64 = { *threshold += 10; *threshold as u64 - 10 }; let r: Vec<u64> = vec![3, 45, 0, e0, e1]; super::note(r);
    }
    fn apply45(protocol: &mut u8, other: &mut u8,)
    {
        let e0: u64 = { *protocol += 10; *protocol as u64 - 10 }; let e1: u64 = { *other += 10; *other as u64 - 10 }; let r: Vec<u64> = vec![3, 45, 1, e0, e1]; super::note(r);
    }
    fn begin45(index: &mut u8, marker: &mut u8,)
    {
        let e0: u64 = { *index += 10; *index as u64 - 10 }; let e1: u64 = { *marker += 10; *marker as u64 - 10 }; let r: Vec<u64> = vec![3, 45, 2, e0, e1]; super::note(r);
    }
}
impl Shape45Marker for Dele {
    type Marker = Delegate;
}
impl Shape45Delegate<Dele> for Dele {
    type Delegate = Worker45<Dele>;
}
impl Shape45Marker for Own {
    type Marker = OwnMarker;
}
impl Shape45Delegate<Own> for Own {
    type Delegate = Decoy45<Own>;
}
impl Shape45Impl<Own, OwnMarker> for Own {
    fn work45(secret: &mut u8, threshold: &mut u8,)
    {
        let e0: u64 = { *secret += 10; *secret as u64 - 10 }; let e1: u64 = { *threshold += 10; *threshold as u64 - 10 }; let r: Vec<u64> = vec![2, 45, 0, e0, e1]; super::note(r);
    }
    fn apply45(protocol: &mut u8, other: &mut u8,)
    {
        let e0: u64 = { *protocol += 10; *protocol as u64 - 10 }; let e1: u64 = { *other += 10; *other as u64 - 10 }; let r: Vec<u64> = vec![2, 45, 1, e0, e1]; super::note(r);
    }
    fn begin45(index: &mut u8, marker: &mut u8,)
    {
        let e0: u64 = { *index += 10; *index as u64 - 10 }; let e1: u64 = { *marker += 10; *marker as u64 - 10 }; let r: Vec<u64> = vec![2, 45, 2, e0, e1]; super::note(r);
    }
}
fn call45_0<X: Shape45<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 45, 0, v0 as u64, v1 as u64];
    let v0_before = v0;
    let v1_before = v1;
    let got: () = <X as Shape45<X>>::work45(&mut v0, &mut v1); let got = super::noted();
    super::same("the result", &got, &want)?;
    super::same("a changed argument", &v0, &(v0_before + 10))?;
    super::same("a changed argument", &v1, &(v1_before + 10))?;
    Ok(())
}
fn call45_1<X: Shape45<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 45, 1, v0 as u64, v1 as u64];
    let v0_before = v0;
    let v1_before = v1;
    let got: () = <X as Shape45<X>>::apply45(&mut v0, &mut v1); let got = super::noted();
    super::same("the result", &got, &want)?;
    super::same("a changed argument", &v0, &(v0_before + 10))?;
    super::same("a changed argument", &v1, &(v1_before + 10))?;
    Ok(())
}
fn call45_2<X: Shape45<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 45, 2, v0 as u64, v1 as u64];
    let v0_before = v0;
    let v1_before = v1;
    let got: () = <X as Shape45<X>>::begin45(&mut v0, &mut v1); let got = super::noted();
    super::same("the result", &got, &want)?;
    super::same("a changed argument", &v0, &(v0_before + 10))?;
    super::same("a changed argument", &v1, &(v1_before + 10))?;
    Ok(())
}
/// mut, ref, mut
#[delegatable_protocol]
pub(crate) trait Shape46<T, S, P,>
where
    P: Log + Send,
    T: Send,
    S: Send
{
    fn work46(rng0: &mut u8, protocol1: &u8, lhs2: &mut u8);
    /// documented
    fn apply46(protocol0: &mut u8, lhs1: &u8, rhs2: &mut u8);
    fn begin46(lhs0: &mut u8, rhs1: &u8, x2: &mut u8);
}
pub struct Worker46<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape46<T, S, P> for Worker46<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send
{
    fn work46(rng0: &mut u8, protocol1: &u8, lhs2: &mut u8)
    {
        let e0: u64 = { *rng0 += 10; *rng0 as u64 - 10 }; let e1: u64 = *protocol1 as u64; let e2: u64 = { *lhs2 += 10; *lhs2 as u64 - 10 }; let r: Vec<u64> = vec![1, 46, 0, e0, e1, e2]; super::note(r);
    }
    fn apply46(protocol0: &mut u8, lhs1: &u8, rhs2: &mut u8)
    {
        let e0: u64 = { *protocol0 += 10; *protocol0 as u64 - 10 }; let e1: u64 = *lhs1 as u64; let e2: u64 = { *rhs2 += 10; *rhs2 as u64 - 10 }; let r: Vec<u64> = vec![1, 46, 1, e0, e1, e2]; super::note(r);
    }
    fn begin46(lhs0: &mut u8, rhs1: &u8, x2: &mut u8)
    {
        let e0: u64 = { *lhs0 += 10; *lhs0 as u64 - 10 }; let e1: u64 = *rhs1 as u64; let e2: u64 = { *x2 += 10; *x2 as u64 - 10 }; let r: Vec<u64> = vec![1, 46, 2, e0, e1, e2]; super::note(r);
    }
}
pub struct Decoy46<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape46<T, S, P> for Decoy46<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send
{
    fn work46(rng0: &mut u8, protocol1: &u8, lhs2: &mut u8)
    {
        let e0: u64 = { *rng0 += 10; *rng0 as u64 - 10 }; let e1: u64 = *protocol1 as u64; let e2: u64 = { *lhs2 += 10; *lhs2 as u64 - 10 }; let r: Vec<u64> = vec![3, 46, 0, e0, e1, e2]; super::note(r);
    }
    fn apply46(protocol0: &mut u8, lhs1: &u8, rhs2: &mut u8)
    {
        let e0: u64 = { *protocol0 += 10; *protocol0 as u64 - 10 }; let e1: u64 = *lhs1 as u64; let e2: u64 = { *rhs2 += 10; *rhs2 as u64 - 10 }; let r: Vec<u64> = vec![3, 46, 1, e0, e1, e2]; super::note(r);
    }
    fn begin46(lhs0: &mut u8, rhs1: &u8, x2: &mut u8)
    {
        let e0: u64 = { *lhs0 += 10; *lhs0 as u64 - 10 }; let e1: u64 = *rhs1 as u64; let e2: u64 = { *x2 += 10; *x2 as u64 - 10 }; let r: Vec<u64> = vec![3, 46, 2, e0, e1, e2]; super::note(r);
    }
}
impl Shape46Marker for Dele {
    type Marker = Delegate;
}
impl Shape46Delegate<u8, u16, Dele> for Dele {
    type Delegate = Worker46<u8, u16, Dele>;
}
impl Shape46Marker for Own {
    type Marker = OwnMarker;
}
impl Shape46Delegate<u8, u16, Own> for Own {
    type Delegate = Decoy46<u8, u16, Own>;
}
impl Shape46Impl<u8, u16, Own, OwnMarker> for Own {
    fn work46(rng0: &mut u8, protocol1: &u8, lhs2: &mut u8)
    {
        let e0: u64 = { *rng0 += 10; *rng0 as u64 - 10 }; let e1: u64 = *protocol1 as u64; let e2: u64 = { *lhs2 += 10; *lhs2 as u64 - 10 }; let r: Vec<u64> = vec![2, 46, 0, e0, e1, e2]; super::note(r);
    }
    fn apply46(protocol0: &mut u8, lhs1: &u8, rhs2: &mut u8)
    {
        let e0: u64 = { *protocol0 += 10; *protocol0 as u64 - 10 }; let e1: u64 = *lhs1 as u64; let e2: u64 = { *rhs2 += 10; *rhs2 as u64 - 10 }; let r: Vec<u64> = vec![2, 46, 1, e0, e1, e2]; super::note(r);
    }
    fn begin46(lhs0: &mut u8, rhs1: &u8, x2: &mut u8)
    {
        let e0: u64 = { *lhs0 += 10; *lhs0 as u64 - 10 }; let e1: u64 = *rhs1 as u64; let e2: u64 = { *x2 += 10; *x2 as u64 - 10 }; let r: Vec<u64> = vec![2, 46, 2, e0, e1, e2]; super::note(r);
    }
}
fn call46_0<X: Shape46<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 46, 0, v0 as u64, v1 as u64, v2 as u64];
    let v0_before = v0;
    let v2_before = v2;
    let got: () = <X as Shape46<u8, u16, X>>::work46(&mut v0, &v1, &mut v2); let got = super::noted();
    super::same("the result", &got, &want)?;
    super::same("a changed argument", &v0, &(v0_before + 10))?;
    super::same("a changed argument", &v2, &(v2_before + 10))?;
    Ok(())
}
fn call46_1<X: Shape46<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 46, 1, v0 as u64, v1 as u64, v2 as u64];
    let v0_before = v0;
    let v2_before = v2;
    let got: () = <X as Shape46<u8, u16, X>>::apply46(&mut v0, &v1, &mut v2); let got = super::noted();
    super::same("the result", &got, &want)?;
    super::same("a changed argument", &v0, &(v0_before + 10))?;
    super::same("a changed argument", &v2, &(v2_before + 10))?;
    Ok(())
}
fn call46_2<X: Shape46<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 46, 2, v0 as u64, v1 as u64, v2 as u64];
    let v0_before = v0;
    let v2_before = v2;
    let got: () = <X as Shape46<u8, u16, X>>::begin46(&mut v0, &v1, &mut v2); let got = super::noted();
    super::same("the result", &got, &want)?;
    super::same("a changed argument", &v0, &(v0_before + 10))?;
    super::same("a changed argument", &v2, &(v2_before + 10))?;
    Ok(())
}
/// mut, ref, mut
#[delegatable_protocol]
pub trait Shape47<P, T>
where
    P: Log + Send + Sync,
    T: Clone + 'static,
{
    fn work47(rng: &mut u8, values: &u8, delegate: &mut u8,) -> Vec<u64>;
    fn offset() -> u64 {
        1000
    }
    fn twice47() -> u64 {
        Self::offset() * 2
    }
}
pub struct Worker47<P, T>(PhantomData<P>, PhantomData<T>);
impl<P, T> Shape47<P, T> for Worker47<P, T>
where
    P: Log + Send + Sync,
    T: Clone + 'static,
{
    fn work47(rng: &mut u8, values: &u8, delegate: &mut u8,) -> Vec<u64>
    {
        let e0: u64 = { *rng += 10; *rng as u64 - 10 }; let e1: u64 = *values as u64; let e2: u64 = { *delegate += 10; *delegate as u64 - 10 }; let r: Vec<u64> = vec![1, 47, 0, e0, e1, e2]; r
    }
}
pub struct Decoy47<P, T>(PhantomData<P>, PhantomData<T>);
impl<P, T> Shape47<P, T> for Decoy47<P, T>
where
    P: Log + Send + Sync,
    T: Clone + 'static,
{
    fn work47(rng: &mut u8, values: &u8, delegate: &mut u8,) -> Vec<u64>
    {
        let e0: u64 = { *rng += 10; *rng as u64 - 10 }; let e1: u64 = *values as u64; let e2: u64 = { *delegate += 10; *delegate as u64 - 10 }; let r: Vec<u64> = vec![3, 47, 0, e0, e1, e2]; r
    }
}
impl Shape47Marker for Dele {
    type Marker = Delegate;
}
impl Shape47Delegate<Dele, u8> for Dele {
    type Delegate = Worker47<Dele, u8>;
}
impl Shape47Marker for Own {
    type Marker = OwnMarker;
}
impl Shape47Delegate<Own, u8> for Own {
    type Delegate = Decoy47<Own, u8>;
}
impl Shape47Impl<Own, u8, OwnMarker> for Own {
    fn work47(rng: &mut u8, values: &u8, delegate: &mut u8,) -> Vec<u64>
    {
        let e0: u64 = { *rng += 10; *rng as u64 - 10 }; let e1: u64 = *values as u64; let e2: u64 = { *delegate += 10; *delegate as u64 - 10 }; let r: Vec<u64> = vec![2, 47, 0, e0, e1, e2]; r
    }
}
fn call47_0<X: Shape47<X, u8> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2];
    let want: Vec<u64> = vec![tag, 47, 0, v0 as u64, v1 as u64, v2 as u64];
    let v0_before = v0;
    let v2_before = v2;
    let got = <X as Shape47<X, u8>>::work47(&mut v0, &v1, &mut v2);
    super::same("the result", &got, &want)?;
    super::same("a changed argument", &v0, &(v0_before + 10))?;
    super::same("a changed argument", &v2, &(v2_before + 10))?;
    Ok(())
}
fn default47<X: Shape47<X, u8>+ Log + Send + Sync + 'static>(_: &[u8], _: u64) -> Outcome
{
    super::same("a default method", &<X as Shape47<X, u8>>::twice47(), &2000)
}
/// fn, fn
#[delegatable_protocol]
pub trait Shape48<P,>
where
    P: Log,
{
    fn work48(rng0: fn(u8) -> u8, protocol1: fn(u8) -> u8,) -> Vec<u64>;
    fn offset() -> u64 {
        1000
    }
    fn twice48() -> u64 {
        Self::offset() * 2
    }
}
pub struct Worker48<P>(PhantomData<P>);
impl<P> Shape48<P> for Worker48<P>
where
    P: Log,
{
    fn work48(rng0: fn(u8) -> u8, protocol1: fn(u8) -> u8,) -> Vec<u64>
    {
        let e0: u64 = rng0(3) as u64; let e1: u64 = protocol1(3) as u64; let r: Vec<u64> = vec![1, 48, 0, e0, e1]; r
    }
}
pub struct Decoy48<P>(PhantomData<P>);
impl<P> Shape48<P> for Decoy48<P>
where
    P: Log,
{
    fn work48(rng0: fn(u8) -> u8, protocol1: fn(u8) -> u8,) -> Vec<u64>
    {
        let e0: u64 = rng0(3) as u64; let e1: u64 = protocol1(3) as u64; let r: Vec<u64> = vec![3, 48, 0, e0, e1]; r
    }
}
impl Shape48Marker for Dele {
    type Marker = Delegate;
}
impl Shape48Delegate<Dele> for Dele {
    type Delegate = Worker48<Dele>;
}
impl Shape48Marker for Own {
    type Marker = OwnMarker;
}
impl Shape48Delegate<Own> for Own {
    type Delegate = Decoy48<Own>;
}
impl Shape48Impl<Own, OwnMarker> for Own {
    fn work48(rng0: fn(u8) -> u8, protocol1: fn(u8) -> u8,) -> Vec<u64>
    {
        let e0: u64 = rng0(3) as u64; let e1: u64 = protocol1(3) as u64; let r: Vec<u64> = vec![2, 48, 0, e0, e1]; r
    }
}
fn call48_0<X: Shape48<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 48, 0, 3 + v0 as u64, 3 + v1 as u64];
    let got = <X as Shape48<X>>::work48([|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v0 as usize], [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v1 as usize]);
    super::same("the result", &got, &want)?;
    Ok(())
}
fn default48<X: Shape48<X>+ Log + Send + Sync + 'static>(_: &[u8], _: u64) -> Outcome
{
    super::same("a default method", &<X as Shape48<X>>::twice48(), &2000)
}
/// fn, fn
#[delegatable_protocol]
trait Shape49<'b, T, P>
where
    P: Log,
    T: Send
{
    fn work49<'a>(shares: fn(u8) -> u8, z: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    /// documented
    fn apply49<'a>(values: fn(u8) -> u8, delegate: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    fn begin49<'a>(P: fn(u8) -> u8, x10: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    /// documented
    fn zeta49<'a>(args: fn(u8) -> u8, output: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    fn reveal49<'a>(x2: fn(u8) -> u8, a: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    /// documented
    fn a49<'a>(left: fn(u8) -> u8, operand_b: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    fn Upper49<'a>(b: fn(u8) -> u8, condition: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    /// documented
    fn snake_case_name_of_a_method49<'a>(first: fn(u8) -> u8, elements: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    fn new49<'a>(lhs: fn(u8) -> u8, count: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    /// documented
    fn delegate49<'a>(bits: fn(u8) -> u8, shares: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    fn p49<'a>(rng: fn(u8) -> u8, values: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    /// documented
    fn multiply49<'a>(threshold: fn(u8) -> u8, P: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
}
pub struct Worker49<'b, T, P>(PhantomData<&'b ()>, PhantomData<T>, PhantomData<P>);
impl<'b, T, P> Shape49<'b, T, P> for Worker49<'b, T, P>
where
    P: Log,
    T: Send
{
    fn work49<'a>(shares: fn(u8) -> u8, z: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = shares(3) as u64; let e1: u64 = z(3) as u64; let r: Vec<u64> = vec![1, 49, 0, e0, e1]; Box::pin(async move { r })
    }
    fn apply49<'a>(values: fn(u8) -> u8, delegate: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = values(3) as u64; let e1: u64 = delegate(3) as u64; let r: Vec<u64> = vec![1, 49, 1, e0, e1]; Box::pin(async move { r })
    }
    fn begin49<'a>(P: fn(u8) -> u8, x10: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = P(3) as u64; let e1: u64 = x10(3) as u64; let r: Vec<u64> = vec![1, 49, 2, e0, e1]; Box::pin(async move { r })
    }
    fn zeta49<'a>(args: fn(u8) -> u8, output: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = args(3) as u64; let e1: u64 = output(3) as u64; let r: Vec<u64> = vec![1, 49, 3, e0, e1]; Box::pin(async move { r })
    }
    fn reveal49<'a>(x2: fn(u8) -> u8, a: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = x2(3) as u64; let e1: u64 = a(3) as u64; let r: Vec<u64> = vec![1, 49, 4, e0, e1]; Box::pin(async move { r })
    }
    fn a49<'a>(left: fn(u8) -> u8, operand_b: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = left(3) as u64; let e1: u64 = operand_b(3) as u64; let r: Vec<u64> = vec![1, 49, 5, e0, e1]; Box::pin(async move { r })
    }
    fn Upper49<'a>(b: fn(u8) -> u8, condition: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = b(3) as u64; let e1: u64 = condition(3) as u64; let r: Vec<u64> = vec![1, 49, 6, e0, e1]; Box::pin(async move { r })
    }
    fn snake_case_name_of_a_method49<'a>(first: fn(u8) -> u8, elements: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = first(3) as u64; let e1: u64 = elements(3) as u64; let r: Vec<u64> = vec![1, 49, 7, e0, e1]; Box::pin(async move { r })
    }
    fn new49<'a>(lhs: fn(u8) -> u8, count: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = lhs(3) as u64; let e1: u64 = count(3) as u64; let r: Vec<u64> = vec![1, 49, 8, e0, e1]; Box::pin(async move { r })
    }
    fn delegate49<'a>(bits: fn(u8) -> u8, shares: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = bits(3) as u64; let e1: u64 = shares(3) as u64; let r: Vec<u64> = vec![1, 49, 9, e0, e1]; Box::pin(async move { r })
    }
    fn p49<'a>(rng: fn(u8) -> u8, values: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = rng(3) as u64; let e1: u64 = values(3) as u64; let r: Vec<u64> = vec![1, 49, 10, e0, e1]; Box::pin(async move { r })
    }
    fn multiply49<'a>(threshold: fn(u8) -> u8, P: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = threshold(3) as u64; let e1: u64 = P(3) as u64; let r: Vec<u64> = vec![1, 49, 11, e0, e1]; Box::pin(async move { r })
    }
}
pub struct Decoy49<'b, T, P>(PhantomData<&'b ()>, PhantomData<T>, PhantomData<P>);
impl<'b, T, P> Shape49<'b, T, P> for Decoy49<'b, T, P>
where
    P: Log,
    T: Send
{
    fn work49<'a>(shares: fn(u8) -> u8, z: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = shares(3) as u64; let e1: u64 = z(3) as u64; let r: Vec<u64> = vec![3, 49, 0, e0, e1]; Box::pin(async move { r })
    }
    fn apply49<'a>(values: fn(u8) -> u8, delegate: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = values(3) as u64; let e1: u64 = delegate(3) as u64; let r: Vec<u64> = vec![3, 49, 1, e0, e1]; Box::pin(async move { r })
    }
    fn begin49<'a>(P: fn(u8) -> u8, x10: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = P(3) as u64; let e1: u64 = x10(3) as u64; let r: Vec<u64> = vec![3, 49, 2, e0, e1]; Box::pin(async move { r })
    }
    fn zeta49<'a>(args: fn(u8) -> u8, output: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = args(3) as u64; let e1: u64 = output(3) as u64; let r: Vec<u64> = vec![3, 49, 3, e0, e1]; Box::pin(async move { r })
    }
    fn reveal49<'a>(x2: fn(u8) -> u8, a: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = x2(3) as u64; let e1: u64 = a(3) as u64; let r: Vec<u64> = vec![3, 49, 4, e0, e1]; Box::pin(async move { r })
    }
    fn a49<'a>(left: fn(u8) -> u8, operand_b: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = left(3) as u64; let e1: u64 = operand_b(3) as u64; let r: Vec<u64> = vec![3, 49, 5, e0, e1]; Box::pin(async move { r })
    }
    fn Upper49<'a>(b: fn(u8) -> u8, condition: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = b(3) as u64; let e1: u64 = condition(3) as u64; let r: Vec<u64> = vec![3, 49, 6, e0, e1]; Box::pin(async move { r })
    }
    fn snake_case_name_of_a_method49<'a>(first: fn(u8) -> u8, elements: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = first(3) as u64; let e1: u64 = elements(3) as u64; let r: Vec<u64> = vec![3, 49, 7, e0, e1]; Box::pin(async move { r })
    }
    fn new49<'a>(lhs: fn(u8) -> u8, count: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = lhs(3) as u64; let e1: u64 = count(3) as u64; let r: Vec<u64> = vec![3, 49, 8, e0, e1]; Box::pin(async move { r })
    }
    fn delegate49<'a>(bits: fn(u8) -> u8, shares: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = bits(3) as u64; let e1: u64 = shares(3) as u64; let r: Vec<u64> = vec![3, 49, 9, e0, e1]; Box::pin(async move { r })
    }
    fn p49<'a>(rng: fn(u8) -> u8, values: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = rng(3) as u64; let e1: u64 = values(3) as u64; let r: Vec<u64> = vec![3, 49, 10, e0, e1]; Box::pin(async move { r })
    }
    fn multiply49<'a>(threshold: fn(u8) -> u8, P: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = threshold(3) as u64; let e1: u64 = P(3) as u64; let r: Vec<u64> = vec![3, 49, 11, e0, e1]; Box::pin(async move { r })
    }
}
impl Shape49Marker for Dele {
    type Marker = Delegate;
}
impl Shape49Delegate<'static, u8, Dele> for Dele {
    type Delegate = Worker49<'static, u8, Dele>;
}
impl Shape49Marker for Own {
    type Marker = OwnMarker;
}
impl Shape49Delegate<'static, u8, Own> for Own {
    type Delegate = Decoy49<'static, u8, Own>;
}
impl Shape49Impl<'static, u8, Own, OwnMarker> for Own {
    fn work49<'a>(shares: fn(u8) -> u8, z: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = shares(3) as u64; let e1: u64 = z(3) as u64; let r: Vec<u64> = vec![2, 49, 0, e0, e1]; Box::pin(async move { r })
    }
    fn apply49<'a>(values: fn(u8) -> u8, delegate: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = values(3) as u64; let e1: u64 = delegate(3) as u64; let r: Vec<u64> = vec![2, 49, 1, e0, e1]; Box::pin(async move { r })
    }
    fn begin49<'a>(P: fn(u8) -> u8, x10: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = P(3) as u64; let e1: u64 = x10(3) as u64; let r: Vec<u64> = vec![2, 49, 2, e0, e1]; Box::pin(async move { r })
    }
    fn zeta49<'a>(args: fn(u8) -> u8, output: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = args(3) as u64; let e1: u64 = output(3) as u64; let r: Vec<u64> = vec![2, 49, 3, e0, e1]; Box::pin(async move { r })
    }
    fn reveal49<'a>(x2: fn(u8) -> u8, a: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = x2(3) as u64; let e1: u64 = a(3) as u64; let r: Vec<u64> = vec![2, 49, 4, e0, e1]; Box::pin(async move { r })
    }
    fn a49<'a>(left: fn(u8) -> u8, operand_b: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = left(3) as u64; let e1: u64 = operand_b(3) as u64; let r: Vec<u64> = vec![2, 49, 5, e0, e1]; Box::pin(async move { r })
    }
    fn Upper49<'a>(b: fn(u8) -> u8, condition: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = b(3) as u64; let e1: u64 = condition(3) as u64; let r: Vec<u64> = vec![2, 49, 6, e0, e1]; Box::pin(async move { r })
    }
    fn snake_case_name_of_a_method49<'a>(first: fn(u8) -> u8, elements: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = first(3) as u64; let e1: u64 = elements(3) as u64; let r: Vec<u64> = vec![2, 49, 7, e0, e1]; Box::pin(async move { r })
    }
    fn new49<'a>(lhs: fn(u8) -> u8, count: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = lhs(3) as u64; let e1: u64 = count(3) as u64; let r: Vec<u64> = vec![2, 49, 8, e0, e1]; Box::pin(async move { r })
    }
    fn delegate49<'a>(bits: fn(u8) -> u8, shares: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = bits(3) as u64; let e1: u64 = shares(3) as u64; let r: Vec<u64> = vec![2, 49, 9, e0, e1]; Box::pin(async move { r })
    }
    fn p49<'a>(rng: fn(u8) -> u8, values: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = rng(3) as u64; let e1: u64 = values(3) as u64; let r: Vec<u64> = vec![2, 49, 10, e0, e1]; Box::pin(async move { r })
    }
    fn multiply49<'a>(threshold: fn(u8) -> u8, P: fn(u8) -> u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = threshold(3) as u64; let e1: u64 = P(3) as u64; let r: Vec<u64> = vec![2, 49, 11, e0, e1]; Box::pin(async move { r })
    }
}
fn call49_0<X: Shape49<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 49, 0, 3 + v0 as u64, 3 + v1 as u64];
    let got = block_on(<X as Shape49<'static, u8, X>>::work49([|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v0 as usize], [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v1 as usize]));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call49_1<X: Shape49<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 49, 1, 3 + v0 as u64, 3 + v1 as u64];
    let got = block_on(<X as Shape49<'static, u8, X>>::apply49([|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v0 as usize], [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v1 as usize]));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call49_2<X: Shape49<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 49, 2, 3 + v0 as u64, 3 + v1 as u64];
    let got = block_on(<X as Shape49<'static, u8, X>>::begin49([|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v0 as usize], [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v1 as usize]));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call49_3<X: Shape49<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 49, 3, 3 + v0 as u64, 3 + v1 as u64];
    let got = block_on(<X as Shape49<'static, u8, X>>::zeta49([|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v0 as usize], [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v1 as usize]));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call49_4<X: Shape49<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 49, 4, 3 + v0 as u64, 3 + v1 as u64];
    let got = block_on(<X as Shape49<'static, u8, X>>::reveal49([|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v0 as usize], [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v1 as usize]));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call49_5<X: Shape49<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 49, 5, 3 + v0 as u64, 3 + v1 as u64];
    let got = block_on(<X as Shape49<'static, u8, X>>::a49([|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v0 as usize], [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v1 as usize]));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call49_6<X: Shape49<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 49, 6, 3 + v0 as u64, 3 + v1 as u64];
    let got = block_on(<X as Shape49<'static, u8, X>>::Upper49([|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v0 as usize], [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v1 as usize]));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call49_7<X: Shape49<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 49, 7, 3 + v0 as u64, 3 + v1 as u64];
    let got = block_on(<X as Shape49<'static, u8, X>>::snake_case_name_of_a_method49([|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v0 as usize], [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v1 as usize]));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call49_8<X: Shape49<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 49, 8, 3 + v0 as u64, 3 + v1 as u64];
    let got = block_on(<X as Shape49<'static, u8, X>>::new49([|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v0 as usize], [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v1 as usize]));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call49_9<X: Shape49<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 49, 9, 3 + v0 as u64, 3 + v1 as u64];
    let got = block_on(<X as Shape49<'static, u8, X>>::delegate49([|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v0 as usize], [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v1 as usize]));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call49_10<X: Shape49<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 49, 10, 3 + v0 as u64, 3 + v1 as u64];
    let got = block_on(<X as Shape49<'static, u8, X>>::p49([|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v0 as usize], [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v1 as usize]));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call49_11<X: Shape49<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 49, 11, 3 + v0 as u64, 3 + v1 as u64];
    let got = block_on(<X as Shape49<'static, u8, X>>::multiply49([|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v0 as usize], [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v1 as usize]));
    super::same("the result", &got, &want)?;
    Ok(())
}
/// u8, protlt, u8
#[delegatable_protocol]
trait Shape50<T, P, S>
where
    P: Log,
    S: IntoIterator<Item = T>,
    T: Into<u64>
{
    fn work50<'a>(rng0: u8, protocol1: &'a mut P, lhs2: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    /// documented
    fn apply50<'a>(protocol0: u8, lhs1: &'a mut P, rhs2: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
}
pub struct Worker50<T, P, S>(PhantomData<T>, PhantomData<P>, PhantomData<S>);
impl<T, P, S> Shape50<T, P, S> for Worker50<T, P, S>
where
    P: Log,
    S: IntoIterator<Item = T>,
    T: Into<u64>
{
    fn work50<'a>(rng0: u8, protocol1: &'a mut P, lhs2: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = rng0 as u64; let e2: u64 = lhs2 as u64; let r: Vec<u64> = vec![1, 50, 0, e0, e2]; protocol1.log(r.clone()); Box::pin(async move { r })
    }
    fn apply50<'a>(protocol0: u8, lhs1: &'a mut P, rhs2: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = protocol0 as u64; let e2: u64 = rhs2 as u64; let r: Vec<u64> = vec![1, 50, 1, e0, e2]; lhs1.log(r.clone()); Box::pin(async move { r })
    }
}
pub struct Decoy50<T, P, S>(PhantomData<T>, PhantomData<P>, PhantomData<S>);
impl<T, P, S> Shape50<T, P, S> for Decoy50<T, P, S>
where
    P: Log,
    S: IntoIterator<Item = T>,
    T: Into<u64>
{
    fn work50<'a>(rng0: u8, protocol1: &'a mut P, lhs2: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = rng0 as u64; let e2: u64 = lhs2 as u64; let r: Vec<u64> = vec![3, 50, 0, e0, e2]; protocol1.log(r.clone()); Box::pin(async move { r })
    }
    fn apply50<'a>(protocol0: u8, lhs1: &'a mut P, rhs2: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = protocol0 as u64; let e2: u64 = rhs2 as u64; let r: Vec<u64> = vec![3, 50, 1, e0, e2]; lhs1.log(r.clone()); Box::pin(async move { r })
    }
}
impl Shape50Marker for Dele {
    type Marker = Delegate;
}
impl Shape50Delegate<u8, Dele, Vec<u8>> for Dele {
    type Delegate = Worker50<u8, Dele, Vec<u8>>;
}
impl Shape50Marker for Own {
    type Marker = OwnMarker;
}
impl Shape50Delegate<u8, Own, Vec<u8>> for Own {
    type Delegate = Decoy50<u8, Own, Vec<u8>>;
}
impl Shape50Impl<u8, Own, Vec<u8>, OwnMarker> for Own {
    fn work50<'a>(rng0: u8, protocol1: &'a mut Own, lhs2: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = rng0 as u64; let e2: u64 = lhs2 as u64; let r: Vec<u64> = vec![2, 50, 0, e0, e2]; protocol1.log(r.clone()); Box::pin(async move { r })
    }
    fn apply50<'a>(protocol0: u8, lhs1: &'a mut Own, rhs2: u8,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = protocol0 as u64; let e2: u64 = rhs2 as u64; let r: Vec<u64> = vec![2, 50, 1, e0, e2]; lhs1.log(r.clone()); Box::pin(async move { r })
    }
}
fn call50_0<X: Shape50<u8, X, Vec<u8>> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v2 = v[1];
    let want: Vec<u64> = vec![tag, 50, 0, v0 as u64, v2 as u64];
    let mut protocol = X::fresh();
    let got = block_on(<X as Shape50<u8, X, Vec<u8>>>::work50(v0, &mut protocol, v2));
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call50_1<X: Shape50<u8, X, Vec<u8>> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v2 = v[1];
    let want: Vec<u64> = vec![tag, 50, 1, v0 as u64, v2 as u64];
    let mut protocol = X::fresh();
    let got = block_on(<X as Shape50<u8, X, Vec<u8>>>::apply50(v0, &mut protocol, v2));
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
/// u8, protlt, u8
#[delegatable_protocol]
pub(crate) trait Shape51<Marked, Other, P>
where
    P: Log,
    Marked: Copy,
    Other: Copy,
{
    fn work51<'a>(index: u8, marker: &'a mut P, x2: u8) -> Result<Vec<u64>, String>;
    /// documented
    fn apply51<'a>(z: u8, x1: &'a mut P, left: u8) -> Result<Vec<u64>, String>;
    fn begin51<'a>(delegate: u8, super_: &'a mut P, b: u8) -> Result<Vec<u64>, String>;
}
pub struct Worker51<Marked, Other, P>(PhantomData<Marked>, PhantomData<Other>, PhantomData<P>);
impl<Marked, Other, P> Shape51<Marked, Other, P> for Worker51<Marked, Other, P>
where
    P: Log,
    Marked: Copy,
    Other: Copy,
{
    fn work51<'a>(index: u8, marker: &'a mut P, x2: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = index as u64; let e2: u64 = x2 as u64; let r: Vec<u64> = vec![1, 51, 0, e0, e2]; marker.log(r.clone()); if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply51<'a>(z: u8, x1: &'a mut P, left: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = z as u64; let e2: u64 = left as u64; let r: Vec<u64> = vec![1, 51, 1, e0, e2]; x1.log(r.clone()); if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn begin51<'a>(delegate: u8, super_: &'a mut P, b: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = delegate as u64; let e2: u64 = b as u64; let r: Vec<u64> = vec![1, 51, 2, e0, e2]; super_.log(r.clone()); if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
pub struct Decoy51<Marked, Other, P>(PhantomData<Marked>, PhantomData<Other>, PhantomData<P>);
impl<Marked, Other, P> Shape51<Marked, Other, P> for Decoy51<Marked, Other, P>
where
    P: Log,
    Marked: Copy,
    Other: Copy,
{
    fn work51<'a>(index: u8, marker: &'a mut P, x2: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = index as u64; let e2: u64 = x2 as u64; let r: Vec<u64> = vec![3, 51, 0, e0, e2]; marker.log(r.clone()); if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply51<'a>(z: u8, x1: &'a mut P, left: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = z as u64; let e2: u64 = left as u64; let r: Vec<u64> = vec![3, 51, 1, e0, e2]; x1.log(r.clone()); if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn begin51<'a>(delegate: u8, super_: &'a mut P, b: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = delegate as u64; let e2: u64 = b as u64; let r: Vec<u64> = vec![3, 51, 2, e0, e2]; super_.log(r.clone()); if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
impl Shape51Marker for Dele {
    type Marker = Delegate;
}
impl Shape51Delegate<u8, u16, Dele> for Dele {
    type Delegate = Worker51<u8, u16, Dele>;
}
impl Shape51Marker for Own {
    type Marker = OwnMarker;
}
impl Shape51Delegate<u8, u16, Own> for Own {
    type Delegate = Decoy51<u8, u16, Own>;
}
impl Shape51Impl<u8, u16, Own, OwnMarker> for Own {
    fn work51<'a>(index: u8, marker: &'a mut Own, x2: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = index as u64; let e2: u64 = x2 as u64; let r: Vec<u64> = vec![2, 51, 0, e0, e2]; marker.log(r.clone()); if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply51<'a>(z: u8, x1: &'a mut Own, left: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = z as u64; let e2: u64 = left as u64; let r: Vec<u64> = vec![2, 51, 1, e0, e2]; x1.log(r.clone()); if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn begin51<'a>(delegate: u8, super_: &'a mut Own, b: u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = delegate as u64; let e2: u64 = b as u64; let r: Vec<u64> = vec![2, 51, 2, e0, e2]; super_.log(r.clone()); if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
fn call51_0<X: Shape51<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v2 = v[1];
    let want: Vec<u64> = vec![tag, 51, 0, v0 as u64, v2 as u64];
    let mut protocol = X::fresh();
    let got = <X as Shape51<u8, u16, X>>::work51(v0, &mut protocol, v2);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call51_1<X: Shape51<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v2 = v[1];
    let want: Vec<u64> = vec![tag, 51, 1, v0 as u64, v2 as u64];
    let mut protocol = X::fresh();
    let got = <X as Shape51<u8, u16, X>>::apply51(v0, &mut protocol, v2);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call51_2<X: Shape51<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v2 = v[1];
    let want: Vec<u64> = vec![tag, 51, 2, v0 as u64, v2 as u64];
    let mut protocol = X::fresh();
    let got = <X as Shape51<u8, u16, X>>::begin51(v0, &mut protocol, v2);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
/// ref, u8, prot
#[delegatable_protocol]
pub(crate) trait Shape52<A, B, C, D, E, F, G, P>
where
    P: Log
{
    fn work52(rng0: &u8, protocol1: u8, lhs2: &mut P) -> Result<Vec<u64>, String>;
    /// documented
    fn apply52(protocol0: &mut P, lhs1: u8, rhs2: &u8) -> Result<Vec<u64>, String>;
    fn begin52(lhs0: &u8, rhs1: u8, x2: &mut P) -> Result<Vec<u64>, String>;
}
pub struct Worker52<A, B, C, D, E, F, G, P>(PhantomData<A>, PhantomData<B>, PhantomData<C>, PhantomData<D>, PhantomData<E>, PhantomData<F>, PhantomData<G>, PhantomData<P>);
impl<A, B, C, D, E, F, G, P> Shape52<A, B, C, D, E, F, G, P> for Worker52<A, B, C, D, E, F, G, P>
where
    P: Log
{
    fn work52(rng0: &u8, protocol1: u8, lhs2: &mut P) -> Result<Vec<u64>, String>
    {
        let e0: u64 = *rng0 as u64; let e1: u64 = protocol1 as u64; let r: Vec<u64> = vec![1, 52, 0, e0, e1]; lhs2.log(r.clone()); if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply52(protocol0: &mut P, lhs1: u8, rhs2: &u8) -> Result<Vec<u64>, String>
    {
        let e1: u64 = lhs1 as u64; let e2: u64 = *rhs2 as u64; let r: Vec<u64> = vec![1, 52, 1, e1, e2]; protocol0.log(r.clone()); if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn begin52(lhs0: &u8, rhs1: u8, x2: &mut P) -> Result<Vec<u64>, String>
    {
        let e0: u64 = *lhs0 as u64; let e1: u64 = rhs1 as u64; let r: Vec<u64> = vec![1, 52, 2, e0, e1]; x2.log(r.clone()); if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
pub struct Decoy52<A, B, C, D, E, F, G, P>(PhantomData<A>, PhantomData<B>, PhantomData<C>, PhantomData<D>, PhantomData<E>, PhantomData<F>, PhantomData<G>, PhantomData<P>);
impl<A, B, C, D, E, F, G, P> Shape52<A, B, C, D, E, F, G, P> for Decoy52<A, B, C, D, E, F, G, P>
where
    P: Log
{
    fn work52(rng0: &u8, protocol1: u8, lhs2: &mut P) -> Result<Vec<u64>, String>
    {
        let e0: u64 = *rng0 as u64; let e1: u64 = protocol1 as u64; let r: Vec<u64> = vec![3, 52, 0, e0, e1]; lhs2.log(r.clone()); if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply52(protocol0: &mut P, lhs1: u8, rhs2: &u8) -> Result<Vec<u64>, String>
    {
        let e1: u64 = lhs1 as u64; let e2: u64 = *rhs2 as u64; let r: Vec<u64> = vec![3, 52, 1, e1, e2]; protocol0.log(r.clone()); if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn begin52(lhs0: &u8, rhs1: u8, x2: &mut P) -> Result<Vec<u64>, String>
    {
        let e0: u64 = *lhs0 as u64; let e1: u64 = rhs1 as u64; let r: Vec<u64> = vec![3, 52, 2, e0, e1]; x2.log(r.clone()); if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
impl Shape52Marker for Dele {
    type Marker = Delegate;
}
impl Shape52Delegate<u8, u16, u32, u64, i8, i16, i32, Dele> for Dele {
    type Delegate = Worker52<u8, u16, u32, u64, i8, i16, i32, Dele>;
}
impl Shape52Marker for Own {
    type Marker = OwnMarker;
}
impl Shape52Delegate<u8, u16, u32, u64, i8, i16, i32, Own> for Own {
    type Delegate = Decoy52<u8, u16, u32, u64, i8, i16, i32, Own>;
}
impl Shape52Impl<u8, u16, u32, u64, i8, i16, i32, Own, OwnMarker> for Own {
    fn work52(rng0: &u8, protocol1: u8, lhs2: &mut Own) -> Result<Vec<u64>, String>
    {
        let e0: u64 = *rng0 as u64; let e1: u64 = protocol1 as u64; let r: Vec<u64> = vec![2, 52, 0, e0, e1]; lhs2.log(r.clone()); if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply52(protocol0: &mut Own, lhs1: u8, rhs2: &u8) -> Result<Vec<u64>, String>
    {
        let e1: u64 = lhs1 as u64; let e2: u64 = *rhs2 as u64; let r: Vec<u64> = vec![2, 52, 1, e1, e2]; protocol0.log(r.clone()); if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn begin52(lhs0: &u8, rhs1: u8, x2: &mut Own) -> Result<Vec<u64>, String>
    {
        let e0: u64 = *lhs0 as u64; let e1: u64 = rhs1 as u64; let r: Vec<u64> = vec![2, 52, 2, e0, e1]; x2.log(r.clone()); if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
fn call52_0<X: Shape52<u8, u16, u32, u64, i8, i16, i32, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 52, 0, v0 as u64, v1 as u64];
    let mut protocol = X::fresh();
    let got = <X as Shape52<u8, u16, u32, u64, i8, i16, i32, X>>::work52(&v0, v1, &mut protocol);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call52_1<X: Shape52<u8, u16, u32, u64, i8, i16, i32, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v1 = v[0]; let mut v2 = v[1];
    let want: Vec<u64> = vec![tag, 52, 1, v1 as u64, v2 as u64];
    let mut protocol = X::fresh();
    let got = <X as Shape52<u8, u16, u32, u64, i8, i16, i32, X>>::apply52(&mut protocol, v1, &v2);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call52_2<X: Shape52<u8, u16, u32, u64, i8, i16, i32, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 52, 2, v0 as u64, v1 as u64];
    let mut protocol = X::fresh();
    let got = <X as Shape52<u8, u16, u32, u64, i8, i16, i32, X>>::begin52(&v0, v1, &mut protocol);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
/// ref, u8, prot
#[delegatable_protocol]
pub trait Shape53<T, S, P,>
where
    P: Log + Send,
    T: Send,
    S: Send
{
    fn work53(other: &u8, args: u8, output: &mut P,);
}
pub struct Worker53<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape53<T, S, P> for Worker53<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send
{
    fn work53(other: &u8, args: u8, output: &mut P,)
    {
        let e0: u64 = *other as u64; let e1: u64 = args as u64; let r: Vec<u64> = vec![1, 53, 0, e0, e1]; output.log(r.clone()); super::note(r);
    }
}
pub struct Decoy53<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape53<T, S, P> for Decoy53<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send
{
    fn work53(other: &u8, args: u8, output: &mut P,)
    {
        let e0: u64 = *other as u64; let e1: u64 = args as u64; let r: Vec<u64> = vec![3, 53, 0, e0, e1]; output.log(r.clone()); super::note(r);
    }
}
impl Shape53Marker for Dele {
    type Marker = Delegate;
}
impl Shape53Delegate<u8, u16, Dele> for Dele {
    type Delegate = Worker53<u8, u16, Dele>;
}
impl Shape53Marker for Own {
    type Marker = OwnMarker;
}
impl Shape53Delegate<u8, u16, Own> for Own {
    type Delegate = Decoy53<u8, u16, Own>;
}
impl Shape53Impl<u8, u16, Own, OwnMarker> for Own {
    fn work53(other: &u8, args: u8, output: &mut Own,)
    {
        let e0: u64 = *other as u64; let e1: u64 = args as u64; let r: Vec<u64> = vec![2, 53, 0, e0, e1]; output.log(r.clone()); super::note(r);
    }
}
fn call53_0<X: Shape53<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1];
    let want: Vec<u64> = vec![tag, 53, 0, v0 as u64, v1 as u64];
    let mut protocol = X::fresh();
    let got: () = <X as Shape53<u8, u16, X>>::work53(&v0, v1, &mut protocol); let got = super::noted();
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
/// opt, fn, pair, slice, gen
#[delegatable_protocol]
pub trait Shape54<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send,
{
    fn work54<Q4>(rng0: Option<u8>, protocol1: fn(u8) -> u8, lhs2: (u8, u8), rhs3: &[u8], x4: Q4)
    where
        Q4: Into<u64>;
    /// documented
    fn apply54<Q0>(protocol0: Q0, lhs1: &[u8], rhs2: (u8, u8), x3: fn(u8) -> u8, value_4: Option<u8>)
    where
        Q0: Into<u64>;
    fn begin54<Q4>(lhs0: Option<u8>, rhs1: fn(u8) -> u8, x2: (u8, u8), value_3: &[u8], item4: Q4)
    where
        Q4: Into<u64>;
    /// documented
    fn zeta54<Q0>(rhs0: Q0, x1: &[u8], value_2: (u8, u8), item3: fn(u8) -> u8, _unused4: Option<u8>)
    where
        Q0: Into<u64>;
    fn reveal54<Q4>(x0: Option<u8>, value_1: fn(u8) -> u8, item2: (u8, u8), _unused3: &[u8], self_4: Q4)
    where
        Q4: Into<u64>;
    /// documented
    fn a54<Q0>(value_0: Q0, item1: &[u8], _unused2: (u8, u8), self_3: fn(u8) -> u8, r#type4: Option<u8>)
    where
        Q0: Into<u64>;
    fn Upper54<Q4>(item0: Option<u8>, _unused1: fn(u8) -> u8, self_2: (u8, u8), r#type3: &[u8], rng4: Q4)
    where
        Q4: Into<u64>;
    /// documented
    fn snake_case_name_of_a_method54<Q0>(_unused0: Q0, self_1: &[u8], r#type2: (u8, u8), rng3: fn(u8) -> u8, protocol4: Option<u8>)
    where
        Q0: Into<u64>;
    fn new54<Q4>(self_0: Option<u8>, r#type1: fn(u8) -> u8, rng2: (u8, u8), protocol3: &[u8], lhs4: Q4)
    where
        Q4: Into<u64>;
    /// documented
    fn delegate54<Q0>(r#type0: Q0, rng1: &[u8], protocol2: (u8, u8), lhs3: fn(u8) -> u8, rhs4: Option<u8>)
    where
        Q0: Into<u64>;
    fn p54<Q4>(rng0: Option<u8>, protocol1: fn(u8) -> u8, lhs2: (u8, u8), rhs3: &[u8], x4: Q4)
    where
        Q4: Into<u64>;
    /// documented
    fn multiply54<Q0>(protocol0: Q0, lhs1: &[u8], rhs2: (u8, u8), x3: fn(u8) -> u8, value_4: Option<u8>)
    where
        Q0: Into<u64>;
}
pub struct Worker54<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape54<T, S, P> for Worker54<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send,
{
    fn work54<Q4>(rng0: Option<u8>, protocol1: fn(u8) -> u8, lhs2: (u8, u8), rhs3: &[u8], x4: Q4)
    where
        Q4: Into<u64>
    {
        let e0: u64 = rng0.map_or(77, |x| x as u64); let e1: u64 = protocol1(3) as u64; let e2: u64 = lhs2.0 as u64 * 256 + lhs2.1 as u64; let e3: u64 = rhs3.iter().fold(rhs3.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = x4.into(); let r: Vec<u64> = vec![1, 54, 0, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn apply54<Q0>(protocol0: Q0, lhs1: &[u8], rhs2: (u8, u8), x3: fn(u8) -> u8, value_4: Option<u8>)
    where
        Q0: Into<u64>
    {
        let e0: u64 = protocol0.into(); let e1: u64 = lhs1.iter().fold(lhs1.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = rhs2.0 as u64 * 256 + rhs2.1 as u64; let e3: u64 = x3(3) as u64; let e4: u64 = value_4.map_or(77, |x| x as u64); let r: Vec<u64> = vec![1, 54, 1, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn begin54<Q4>(lhs0: Option<u8>, rhs1: fn(u8) -> u8, x2: (u8, u8), value_3: &[u8], item4: Q4)
    where
        Q4: Into<u64>
    {
        let e0: u64 = lhs0.map_or(77, |x| x as u64); let e1: u64 = rhs1(3) as u64; let e2: u64 = x2.0 as u64 * 256 + x2.1 as u64; let e3: u64 = value_3.iter().fold(value_3.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = item4.into(); let r: Vec<u64> = vec![1, 54, 2, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn zeta54<Q0>(rhs0: Q0, x1: &[u8], value_2: (u8, u8), item3: fn(u8) -> u8, _unused4: Option<u8>)
    where
        Q0: Into<u64>
    {
        let e0: u64 = rhs0.into(); let e1: u64 = x1.iter().fold(x1.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = value_2.0 as u64 * 256 + value_2.1 as u64; let e3: u64 = item3(3) as u64; let e4: u64 = _unused4.map_or(77, |x| x as u64); let r: Vec<u64> = vec![1, 54, 3, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn reveal54<Q4>(x0: Option<u8>, value_1: fn(u8) -> u8, item2: (u8, u8), _unused3: &[u8], self_4: Q4)
    where
        Q4: Into<u64>
    {
        let e0: u64 = x0.map_or(77, |x| x as u64); let e1: u64 = value_1(3) as u64; let e2: u64 = item2.0 as u64 * 256 + item2.1 as u64; let e3: u64 = _unused3.iter().fold(_unused3.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = self_4.into(); let r: Vec<u64> = vec![1, 54, 4, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn a54<Q0>(value_0: Q0, item1: &[u8], _unused2: (u8, u8), self_3: fn(u8) -> u8, r#type4: Option<u8>)
    where
        Q0: Into<u64>
    {
        let e0: u64 = value_0.into(); let e1: u64 = item1.iter().fold(item1.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = _unused2.0 as u64 * 256 + _unused2.1 as u64; let e3: u64 = self_3(3) as u64; let e4: u64 = r#type4.map_or(77, |x| x as u64); let r: Vec<u64> = vec![1, 54, 5, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn Upper54<Q4>(item0: Option<u8>, _unused1: fn(u8) -> u8, self_2: (u8, u8), r#type3: &[u8], rng4: Q4)
    where
        Q4: Into<u64>
    {
        let e0: u64 = item0.map_or(77, |x| x as u64); let e1: u64 = _unused1(3) as u64; let e2: u64 = self_2.0 as u64 * 256 + self_2.1 as u64; let e3: u64 = r#type3.iter().fold(r#type3.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = rng4.into(); let r: Vec<u64> = vec![1, 54, 6, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn snake_case_name_of_a_method54<Q0>(_unused0: Q0, self_1: &[u8], r#type2: (u8, u8), rng3: fn(u8) -> u8, protocol4: Option<u8>)
    where
        Q0: Into<u64>
    {
        let e0: u64 = _unused0.into(); let e1: u64 = self_1.iter().fold(self_1.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = r#type2.0 as u64 * 256 + r#type2.1 as u64; let e3: u64 = rng3(3) as u64; let e4: u64 = protocol4.map_or(77, |x| x as u64); let r: Vec<u64> = vec![1, 54, 7, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn new54<Q4>(self_0: Option<u8>, r#type1: fn(u8) -> u8, rng2: (u8, u8), protocol3: &[u8], lhs4: Q4)
    where
        Q4: Into<u64>
    {
        let e0: u64 = self_0.map_or(77, |x| x as u64); let e1: u64 = r#type1(3) as u64; let e2: u64 = rng2.0 as u64 * 256 + rng2.1 as u64; let e3: u64 = protocol3.iter().fold(protocol3.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = lhs4.into(); let r: Vec<u64> = vec![1, 54, 8, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn delegate54<Q0>(r#type0: Q0, rng1: &[u8], protocol2: (u8, u8), lhs3: fn(u8) -> u8, rhs4: Option<u8>)
    where
        Q0: Into<u64>
    {
        let e0: u64 = r#type0.into(); let e1: u64 = rng1.iter().fold(rng1.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = protocol2.0 as u64 * 256 + protocol2.1 as u64; let e3: u64 = lhs3(3) as u64; let e4: u64 = rhs4.map_or(77, |x| x as u64); let r: Vec<u64> = vec![1, 54, 9, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn p54<Q4>(rng0: Option<u8>, protocol1: fn(u8) -> u8, lhs2: (u8, u8), rhs3: &[u8], x4: Q4)
    where
        Q4: Into<u64>
    {
        let e0: u64 = rng0.map_or(77, |x| x as u64); let e1: u64 = protocol1(3) as u64; let e2: u64 = lhs2.0 as u64 * 256 + lhs2.1 as u64; let e3: u64 = rhs3.iter().fold(rhs3.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = x4.into(); let r: Vec<u64> = vec![1, 54, 10, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn multiply54<Q0>(protocol0: Q0, lhs1: &[u8], rhs2: (u8, u8), x3: fn(u8) -> u8, value_4: Option<u8>)
    where
        Q0: Into<u64>
    {
        let e0: u64 = protocol0.into(); let e1: u64 = lhs1.iter().fold(lhs1.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = rhs2.0 as u64 * 256 + rhs2.1 as u64; let e3: u64 = x3(3) as u64; let e4: u64 = value_4.map_or(77, |x| x as u64); let r: Vec<u64> = vec![1, 54, 11, e0, e1, e2, e3, e4]; super::note(r);
    }
}
pub struct Decoy54<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape54<T, S, P> for Decoy54<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send,
{
    fn work54<Q4>(rng0: Option<u8>, protocol1: fn(u8) -> u8, lhs2: (u8, u8), rhs3: &[u8], x4: Q4)
    where
        Q4: Into<u64>
    {
        let e0: u64 = rng0.map_or(77, |x| x as u64); let e1: u64 = protocol1(3) as u64; let e2: u64 = lhs2.0 as u64 * 256 + lhs2.1 as u64; let e3: u64 = rhs3.iter().fold(rhs3.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = x4.into(); let r: Vec<u64> = vec![3, 54, 0, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn apply54<Q0>(protocol0: Q0, lhs1: &[u8], rhs2: (u8, u8), x3: fn(u8) -> u8, value_4: Option<u8>)
    where
        Q0: Into<u64>
    {
        let e0: u64 = protocol0.into(); let e1: u64 = lhs1.iter().fold(lhs1.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = rhs2.0 as u64 * 256 + rhs2.1 as u64; let e3: u64 = x3(3) as u64; let e4: u64 = value_4.map_or(77, |x| x as u64); let r: Vec<u64> = vec![3, 54, 1, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn begin54<Q4>(lhs0: Option<u8>, rhs1: fn(u8) -> u8, x2: (u8, u8), value_3: &[u8], item4: Q4)
    where
        Q4: Into<u64>
    {
        let e0: u64 = lhs0.map_or(77, |x| x as u64); let e1: u64 = rhs1(3) as u64; let e2: u64 = x2.0 as u64 * 256 + x2.1 as u64; let e3: u64 = value_3.iter().fold(value_3.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = item4.into(); let r: Vec<u64> = vec![3, 54, 2, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn zeta54<Q0>(rhs0: Q0, x1: &[u8], value_2: (u8, u8), item3: fn(u8) -> u8, _unused4: Option<u8>)
    where
        Q0: Into<u64>
    {
        let e0: u64 = rhs0.into(); let e1: u64 = x1.iter().fold(x1.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = value_2.0 as u64 * 256 + value_2.1 as u64; let e3: u64 = item3(3) as u64; let e4: u64 = _unused4.map_or(77, |x| x as u64); let r: Vec<u64> = vec![3, 54, 3, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn reveal54<Q4>(x0: Option<u8>, value_1: fn(u8) -> u8, item2: (u8, u8), _unused3: &[u8], self_4: Q4)
    where
        Q4: Into<u64>
    {
        let e0: u64 = x0.map_or(77, |x| x as u64); let e1: u64 = value_1(3) as u64; let e2: u64 = item2.0 as u64 * 256 + item2.1 as u64; let e3: u64 = _unused3.iter().fold(_unused3.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = self_4.into(); let r: Vec<u64> = vec![3, 54, 4, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn a54<Q0>(value_0: Q0, item1: &[u8], _unused2: (u8, u8), self_3: fn(u8) -> u8, r#type4: Option<u8>)
    where
        Q0: Into<u64>
    {
        let e0: u64 = value_0.into(); let e1: u64 = item1.iter().fold(item1.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = _unused2.0 as u64 * 256 + _unused2.1 as u64; let e3: u64 = self_3(3) as u64; let e4: u64 = r#type4.map_or(77, |x| x as u64); let r: Vec<u64> = vec![3, 54, 5, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn Upper54<Q4>(item0: Option<u8>, _unused1: fn(u8) -> u8, self_2: (u8, u8), r#type3: &[u8], rng4: Q4)
    where
        Q4: Into<u64>
    {
        let e0: u64 = item0.map_or(77, |x| x as u64); let e1: u64 = _unused1(3) as u64; let e2: u64 = self_2.0 as u64 * 256 + self_2.1 as u64; let e3: u64 = r#type3.iter().fold(r#type3.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = rng4.into(); let r: Vec<u64> = vec![3, 54, 6, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn snake_case_name_of_a_method54<Q0>(_unused0: Q0, self_1: &[u8], r#type2: (u8, u8), rng3: fn(u8) -> u8, protocol4: Option<u8>)
    where
        Q0: Into<u64>
    {
        let e0: u64 = _unused0.into(); let e1: u64 = self_1.iter().fold(self_1.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = r#type2.0 as u64 * 256 + r#type2.1 as u64; let e3: u64 = rng3(3) as u64; let e4: u64 = protocol4.map_or(77, |x| x as u64); let r: Vec<u64> = vec![3, 54, 7, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn new54<Q4>(self_0: Option<u8>, r#type1: fn(u8) -> u8, rng2: (u8, u8), protocol3: &[u8], lhs4: Q4)
    where
        Q4: Into<u64>
    {
        let e0: u64 = self_0.map_or(77, |x| x as u64); let e1: u64 = r#type1(3) as u64; let e2: u64 = rng2.0 as u64 * 256 + rng2.1 as u64; let e3: u64 = protocol3.iter().fold(protocol3.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = lhs4.into(); let r: Vec<u64> = vec![3, 54, 8, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn delegate54<Q0>(r#type0: Q0, rng1: &[u8], protocol2: (u8, u8), lhs3: fn(u8) -> u8, rhs4: Option<u8>)
    where
        Q0: Into<u64>
    {
        let e0: u64 = r#type0.into(); let e1: u64 = rng1.iter().fold(rng1.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = protocol2.0 as u64 * 256 + protocol2.1 as u64; let e3: u64 = lhs3(3) as u64; let e4: u64 = rhs4.map_or(77, |x| x as u64); let r: Vec<u64> = vec![3, 54, 9, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn p54<Q4>(rng0: Option<u8>, protocol1: fn(u8) -> u8, lhs2: (u8, u8), rhs3: &[u8], x4: Q4)
    where
        Q4: Into<u64>
    {
        let e0: u64 = rng0.map_or(77, |x| x as u64); let e1: u64 = protocol1(3) as u64; let e2: u64 = lhs2.0 as u64 * 256 + lhs2.1 as u64; let e3: u64 = rhs3.iter().fold(rhs3.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = x4.into(); let r: Vec<u64> = vec![3, 54, 10, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn multiply54<Q0>(protocol0: Q0, lhs1: &[u8], rhs2: (u8, u8), x3: fn(u8) -> u8, value_4: Option<u8>)
    where
        Q0: Into<u64>
    {
        let e0: u64 = protocol0.into(); let e1: u64 = lhs1.iter().fold(lhs1.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = rhs2.0 as u64 * 256 + rhs2.1 as u64; let e3: u64 = x3(3) as u64; let e4: u64 = value_4.map_or(77, |x| x as u64); let r: Vec<u64> = vec![3, 54, 11, e0, e1, e2, e3, e4]; super::note(r);
    }
}
impl Shape54Marker for Dele {
    type Marker = Delegate;
}
impl Shape54Delegate<u8, u16, Dele> for Dele {
    type Delegate = Worker54<u8, u16, Dele>;
}
impl Shape54Marker for Own {
    type Marker = OwnMarker;
}
impl Shape54Delegate<u8, u16, Own> for Own {
    type Delegate = Decoy54<u8, u16, Own>;
}
impl Shape54Impl<u8, u16, Own, OwnMarker> for Own {
    fn work54<Q4>(rng0: Option<u8>, protocol1: fn(u8) -> u8, lhs2: (u8, u8), rhs3: &[u8], x4: Q4)
    where
        Q4: Into<u64>
    {
        let e0: u64 = rng0.map_or(77, |x| x as u64); let e1: u64 = protocol1(3) as u64; let e2: u64 = lhs2.0 as u64 * 256 + lhs2.1 as u64; let e3: u64 = rhs3.iter().fold(rhs3.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = x4.into(); let r: Vec<u64> = vec![2, 54, 0, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn apply54<Q0>(protocol0: Q0, lhs1: &[u8], rhs2: (u8, u8), x3: fn(u8) -> u8, value_4: Option<u8>)
    where
        Q0: Into<u64>
    {
        let e0: u64 = protocol0.into(); let e1: u64 = lhs1.iter().fold(lhs1.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = rhs2.0 as u64 * 256 + rhs2.1 as u64; let e3: u64 = x3(3) as u64; let e4: u64 = value_4.map_or(77, |x| x as u64); let r: Vec<u64> = vec![2, 54, 1, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn begin54<Q4>(lhs0: Option<u8>, rhs1: fn(u8) -> u8, x2: (u8, u8), value_3: &[u8], item4: Q4)
    where
        Q4: Into<u64>
    {
        let e0: u64 = lhs0.map_or(77, |x| x as u64); let e1: u64 = rhs1(3) as u64; let e2: u64 = x2.0 as u64 * 256 + x2.1 as u64; let e3: u64 = value_3.iter().fold(value_3.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = item4.into(); let r: Vec<u64> = vec![2, 54, 2, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn zeta54<Q0>(rhs0: Q0, x1: &[u8], value_2: (u8, u8), item3: fn(u8) -> u8, _unused4: Option<u8>)
    where
        Q0: Into<u64>
    {
        let e0: u64 = rhs0.into(); let e1: u64 = x1.iter().fold(x1.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = value_2.0 as u64 * 256 + value_2.1 as u64; let e3: u64 = item3(3) as u64; let e4: u64 = _unused4.map_or(77, |x| x as u64); let r: Vec<u64> = vec![2, 54, 3, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn reveal54<Q4>(x0: Option<u8>, value_1: fn(u8) -> u8, item2: (u8, u8), _unused3: &[u8], self_4: Q4)
    where
        Q4: Into<u64>
    {
        let e0: u64 = x0.map_or(77, |x| x as u64); let e1: u64 = value_1(3) as u64; let e2: u64 = item2.0 as u64 * 256 + item2.1 as u64; let e3: u64 = _unused3.iter().fold(_unused3.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = self_4.into(); let r: Vec<u64> = vec![2, 54, 4, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn a54<Q0>(value_0: Q0, item1: &[u8], _unused2: (u8, u8), self_3: fn(u8) -> u8, r#type4: Option<u8>)
    where
        Q0: Into<u64>
    {
        let e0: u64 = value_0.into(); let e1: u64 = item1.iter().fold(item1.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = _unused2.0 as u64 * 256 + _unused2.1 as u64; let e3: u64 = self_3(3) as u64; let e4: u64 = r#type4.map_or(77, |x| x as u64); let r: Vec<u64> = vec![2, 54, 5, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn Upper54<Q4>(item0: Option<u8>, _unused1: fn(u8) -> u8, self_2: (u8, u8), r#type3: &[u8], rng4: Q4)
    where
        Q4: Into<u64>
    {
        let e0: u64 = item0.map_or(77, |x| x as u64); let e1: u64 = _unused1(3) as u64; let e2: u64 = self_2.0 as u64 * 256 + self_2.1 as u64; let e3: u64 = r#type3.iter().fold(r#type3.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = rng4.into(); let r: Vec<u64> = vec![2, 54, 6, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn snake_case_name_of_a_method54<Q0>(_unused0: Q0, self_1: &[u8], r#type2: (u8, u8), rng3: fn(u8) -> u8, protocol4: Option<u8>)
    where
        Q0: Into<u64>
    {
        let e0: u64 = _unused0.into(); let e1: u64 = self_1.iter().fold(self_1.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = r#type2.0 as u64 * 256 + r#type2.1 as u64; let e3: u64 = rng3(3) as u64; let e4: u64 = protocol4.map_or(77, |x| x as u64); let r: Vec<u64> = vec![2, 54, 7, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn new54<Q4>(self_0: Option<u8>, r#type1: fn(u8) -> u8, rng2: (u8, u8), protocol3: &[u8], lhs4: Q4)
    where
        Q4: Into<u64>
    {
        let e0: u64 = self_0.map_or(77, |x| x as u64); let e1: u64 = r#type1(3) as u64; let e2: u64 = rng2.0 as u64 * 256 + rng2.1 as u64; let e3: u64 = protocol3.iter().fold(protocol3.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = lhs4.into(); let r: Vec<u64> = vec![2, 54, 8, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn delegate54<Q0>(r#type0: Q0, rng1: &[u8], protocol2: (u8, u8), lhs3: fn(u8) -> u8, rhs4: Option<u8>)
    where
        Q0: Into<u64>
    {
        let e0: u64 = r#type0.into(); let e1: u64 = rng1.iter().fold(rng1.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = protocol2.0 as u64 * 256 + protocol2.1 as u64; let e3: u64 = lhs3(3) as u64; let e4: u64 = rhs4.map_or(77, |x| x as u64); let r: Vec<u64> = vec![2, 54, 9, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn p54<Q4>(rng0: Option<u8>, protocol1: fn(u8) -> u8, lhs2: (u8, u8), rhs3: &[u8], x4: Q4)
    where
        Q4: Into<u64>
    {
        let e0: u64 = rng0.map_or(77, |x| x as u64); let e1: u64 = protocol1(3) as u64; let e2: u64 = lhs2.0 as u64 * 256 + lhs2.1 as u64; let e3: u64 = rhs3.iter().fold(rhs3.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = x4.into(); let r: Vec<u64> = vec![2, 54, 10, e0, e1, e2, e3, e4]; super::note(r);
    }
    fn multiply54<Q0>(protocol0: Q0, lhs1: &[u8], rhs2: (u8, u8), x3: fn(u8) -> u8, value_4: Option<u8>)
    where
        Q0: Into<u64>
    {
        let e0: u64 = protocol0.into(); let e1: u64 = lhs1.iter().fold(lhs1.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = rhs2.0 as u64 * 256 + rhs2.1 as u64; let e3: u64 = x3(3) as u64; let e4: u64 = value_4.map_or(77, |x| x as u64); let r: Vec<u64> = vec![2, 54, 11, e0, e1, e2, e3, e4]; super::note(r);
    }
}
fn call54_0<X: Shape54<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4];
    let want: Vec<u64> = vec![tag, 54, 0, if v0 == 0 { 77 } else { v0 as u64 }, 3 + v1 as u64, v2 as u64 * 256 + (v2 ^ 5) as u64, (2 * 256 + v3 as u64) * 256 + v3 as u64 + 1, v4 as u64];
    let got: () = <X as Shape54<u8, u16, X>>::work54(if v0 == 0 { None } else { Some(v0) }, [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v1 as usize], (v2, v2 ^ 5), &[v3, v3 + 1][..], v4 as u16); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call54_1<X: Shape54<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4];
    let want: Vec<u64> = vec![tag, 54, 1, v0 as u64, (2 * 256 + v1 as u64) * 256 + v1 as u64 + 1, v2 as u64 * 256 + (v2 ^ 5) as u64, 3 + v3 as u64, if v4 == 0 { 77 } else { v4 as u64 }];
    let got: () = <X as Shape54<u8, u16, X>>::apply54(v0 as u16, &[v1, v1 + 1][..], (v2, v2 ^ 5), [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v3 as usize], if v4 == 0 { None } else { Some(v4) }); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call54_2<X: Shape54<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4];
    let want: Vec<u64> = vec![tag, 54, 2, if v0 == 0 { 77 } else { v0 as u64 }, 3 + v1 as u64, v2 as u64 * 256 + (v2 ^ 5) as u64, (2 * 256 + v3 as u64) * 256 + v3 as u64 + 1, v4 as u64];
    let got: () = <X as Shape54<u8, u16, X>>::begin54(if v0 == 0 { None } else { Some(v0) }, [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v1 as usize], (v2, v2 ^ 5), &[v3, v3 + 1][..], v4 as u16); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call54_3<X: Shape54<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4];
    let want: Vec<u64> = vec![tag, 54, 3, v0 as u64, (2 * 256 + v1 as u64) * 256 + v1 as u64 + 1, v2 as u64 * 256 + (v2 ^ 5) as u64, 3 + v3 as u64, if v4 == 0 { 77 } else { v4 as u64 }];
    let got: () = <X as Shape54<u8, u16, X>>::zeta54(v0 as u16, &[v1, v1 + 1][..], (v2, v2 ^ 5), [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v3 as usize], if v4 == 0 { None } else { Some(v4) }); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call54_4<X: Shape54<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4];
    let want: Vec<u64> = vec![tag, 54, 4, if v0 == 0 { 77 } else { v0 as u64 }, 3 + v1 as u64, v2 as u64 * 256 + (v2 ^ 5) as u64, (2 * 256 + v3 as u64) * 256 + v3 as u64 + 1, v4 as u64];
    let got: () = <X as Shape54<u8, u16, X>>::reveal54(if v0 == 0 { None } else { Some(v0) }, [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v1 as usize], (v2, v2 ^ 5), &[v3, v3 + 1][..], v4 as u16); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call54_5<X: Shape54<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4];
    let want: Vec<u64> = vec![tag, 54, 5, v0 as u64, (2 * 256 + v1 as u64) * 256 + v1 as u64 + 1, v2 as u64 * 256 + (v2 ^ 5) as u64, 3 + v3 as u64, if v4 == 0 { 77 } else { v4 as u64 }];
    let got: () = <X as Shape54<u8, u16, X>>::a54(v0 as u16, &[v1, v1 + 1][..], (v2, v2 ^ 5), [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v3 as usize], if v4 == 0 { None } else { Some(v4) }); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call54_6<X: Shape54<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4];
    let want: Vec<u64> = vec![tag, 54, 6, if v0 == 0 { 77 } else { v0 as u64 }, 3 + v1 as u64, v2 as u64 * 256 + (v2 ^ 5) as u64, (2 * 256 + v3 as u64) * 256 + v3 as u64 + 1, v4 as u64];
    let got: () = <X as Shape54<u8, u16, X>>::Upper54(if v0 == 0 { None } else { Some(v0) }, [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v1 as usize], (v2, v2 ^ 5), &[v3, v3 + 1][..], v4 as u16); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call54_7<X: Shape54<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4];
    let want: Vec<u64> = vec![tag, 54, 7, v0 as u64, (2 * 256 + v1 as u64) * 256 + v1 as u64 + 1, v2 as u64 * 256 + (v2 ^ 5) as u64, 3 + v3 as u64, if v4 == 0 { 77 } else { v4 as u64 }];
    let got: () = <X as Shape54<u8, u16, X>>::snake_case_name_of_a_method54(v0 as u16, &[v1, v1 + 1][..], (v2, v2 ^ 5), [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v3 as usize], if v4 == 0 { None } else { Some(v4) }); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call54_8<X: Shape54<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4];
    let want: Vec<u64> = vec![tag, 54, 8, if v0 == 0 { 77 } else { v0 as u64 }, 3 + v1 as u64, v2 as u64 * 256 + (v2 ^ 5) as u64, (2 * 256 + v3 as u64) * 256 + v3 as u64 + 1, v4 as u64];
    let got: () = <X as Shape54<u8, u16, X>>::new54(if v0 == 0 { None } else { Some(v0) }, [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v1 as usize], (v2, v2 ^ 5), &[v3, v3 + 1][..], v4 as u16); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call54_9<X: Shape54<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4];
    let want: Vec<u64> = vec![tag, 54, 9, v0 as u64, (2 * 256 + v1 as u64) * 256 + v1 as u64 + 1, v2 as u64 * 256 + (v2 ^ 5) as u64, 3 + v3 as u64, if v4 == 0 { 77 } else { v4 as u64 }];
    let got: () = <X as Shape54<u8, u16, X>>::delegate54(v0 as u16, &[v1, v1 + 1][..], (v2, v2 ^ 5), [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v3 as usize], if v4 == 0 { None } else { Some(v4) }); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call54_10<X: Shape54<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4];
    let want: Vec<u64> = vec![tag, 54, 10, if v0 == 0 { 77 } else { v0 as u64 }, 3 + v1 as u64, v2 as u64 * 256 + (v2 ^ 5) as u64, (2 * 256 + v3 as u64) * 256 + v3 as u64 + 1, v4 as u64];
    let got: () = <X as Shape54<u8, u16, X>>::p54(if v0 == 0 { None } else { Some(v0) }, [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v1 as usize], (v2, v2 ^ 5), &[v3, v3 + 1][..], v4 as u16); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call54_11<X: Shape54<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4];
    let want: Vec<u64> = vec![tag, 54, 11, v0 as u64, (2 * 256 + v1 as u64) * 256 + v1 as u64 + 1, v2 as u64 * 256 + (v2 ^ 5) as u64, 3 + v3 as u64, if v4 == 0 { 77 } else { v4 as u64 }];
    let got: () = <X as Shape54<u8, u16, X>>::multiply54(v0 as u16, &[v1, v1 + 1][..], (v2, v2 ^ 5), [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v3 as usize], if v4 == 0 { None } else { Some(v4) }); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
/// opt, fn, pair, slice, gen
#[delegatable_protocol]
trait Shape55<P,>
where
    P: Log,
{
    fn work55<Q4>(P: Option<u8>, x10: fn(u8) -> u8, right: (u8, u8), first: &[u8], elements: Q4,) -> Vec<u64>
    where
        Q4: Into<u64>,;
    /// documented
    fn apply55<Q0>(args: Q0, output: &[u8], operand_a: (u8, u8), lhs: fn(u8) -> u8, count: Option<u8>,) -> Vec<u64>
    where
        Q0: Into<u64>,;
    fn offset() -> u64 {
        1000
    }
    fn twice55() -> u64 {
        Self::offset() * 2
    }
}
pub struct Worker55<P>(PhantomData<P>);
impl<P> Shape55<P> for Worker55<P>
where
    P: Log,
{
    fn work55<Q4>(P: Option<u8>, x10: fn(u8) -> u8, right: (u8, u8), first: &[u8], elements: Q4,) -> Vec<u64>
    where
        Q4: Into<u64>,
    {
        let e0: u64 = P.map_or(77, |x| x as u64); let e1: u64 = x10(3) as u64; let e2: u64 = right.0 as u64 * 256 + right.1 as u64; let e3: u64 = first.iter().fold(first.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = elements.into(); let r: Vec<u64> = vec![1, 55, 0, e0, e1, e2, e3, e4]; r
    }
    fn apply55<Q0>(args: Q0, output: &[u8], operand_a: (u8, u8), lhs: fn(u8) -> u8, count: Option<u8>,) -> Vec<u64>
    where
        Q0: Into<u64>,
    {
        let e0: u64 = args.into(); let e1: u64 = output.iter().fold(output.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = operand_a.0 as u64 * 256 + operand_a.1 as u64; let e3: u64 = lhs(3) as u64; let e4: u64 = count.map_or(77, |x| x as u64); let r: Vec<u64> = vec![1, 55, 1, e0, e1, e2, e3, e4]; r
    }
}
pub struct Decoy55<P>(PhantomData<P>);
impl<P> Shape55<P> for Decoy55<P>
where
    P: Log,
{
    fn work55<Q4>(P: Option<u8>, x10: fn(u8) -> u8, right: (u8, u8), first: &[u8], elements: Q4,) -> Vec<u64>
    where
        Q4: Into<u64>,
    {
        let e0: u64 = P.map_or(77, |x| x as u64); let e1: u64 = x10(3) as u64; let e2: u64 = right.0 as u64 * 256 + right.1 as u64; let e3: u64 = first.iter().fold(first.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = elements.into(); let r: Vec<u64> = vec![3, 55, 0, e0, e1, e2, e3, e4]; r
    }
    fn apply55<Q0>(args: Q0, output: &[u8], operand_a: (u8, u8), lhs: fn(u8) -> u8, count: Option<u8>,) -> Vec<u64>
    where
        Q0: Into<u64>,
    {
        let e0: u64 = args.into(); let e1: u64 = output.iter().fold(output.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = operand_a.0 as u64 * 256 + operand_a.1 as u64; let e3: u64 = lhs(3) as u64; let e4: u64 = count.map_or(77, |x| x as u64); let r: Vec<u64> = vec![3, 55, 1, e0, e1, e2, e3, e4]; r
    }
}
impl Shape55Marker for Dele {
    type Marker = Delegate;
}
impl Shape55Delegate<Dele> for Dele {
    type Delegate = Worker55<Dele>;
}
impl Shape55Marker for Own {
    type Marker = OwnMarker;
}
impl Shape55Delegate<Own> for Own {
    type Delegate = Decoy55<Own>;
}
impl Shape55Impl<Own, OwnMarker> for Own {
    fn work55<Q4>(P: Option<u8>, x10: fn(u8) -> u8, right: (u8, u8), first: &[u8], elements: Q4,) -> Vec<u64>
    where
        Q4: Into<u64>,
    {
        let e0: u64 = P.map_or(77, |x| x as u64); let e1: u64 = x10(3) as u64; let e2: u64 = right.0 as u64 * 256 + right.1 as u64; let e3: u64 = first.iter().fold(first.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = elements.into(); let r: Vec<u64> = vec![2, 55, 0, e0, e1, e2, e3, e4]; r
    }
    fn apply55<Q0>(args: Q0, output: &[u8], operand_a: (u8, u8), lhs: fn(u8) -> u8, count: Option<u8>,) -> Vec<u64>
    where
        Q0: Into<u64>,
    {
        let e0: u64 = args.into(); let e1: u64 = output.iter().fold(output.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = operand_a.0 as u64 * 256 + operand_a.1 as u64; let e3: u64 = lhs(3) as u64; let e4: u64 = count.map_or(77, |x| x as u64); let r: Vec<u64> = vec![2, 55, 1, e0, e1, e2, e3, e4]; r
    }
}
fn call55_0<X: Shape55<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4];
    let want: Vec<u64> = vec![tag, 55, 0, if v0 == 0 { 77 } else { v0 as u64 }, 3 + v1 as u64, v2 as u64 * 256 + (v2 ^ 5) as u64, (2 * 256 + v3 as u64) * 256 + v3 as u64 + 1, v4 as u64];
    let got = <X as Shape55<X>>::work55(if v0 == 0 { None } else { Some(v0) }, [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v1 as usize], (v2, v2 ^ 5), &[v3, v3 + 1][..], v4 as u16);
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call55_1<X: Shape55<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4];
    let want: Vec<u64> = vec![tag, 55, 1, v0 as u64, (2 * 256 + v1 as u64) * 256 + v1 as u64 + 1, v2 as u64 * 256 + (v2 ^ 5) as u64, 3 + v3 as u64, if v4 == 0 { 77 } else { v4 as u64 }];
    let got = <X as Shape55<X>>::apply55(v0 as u16, &[v1, v1 + 1][..], (v2, v2 ^ 5), [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v3 as usize], if v4 == 0 { None } else { Some(v4) });
    super::same("the result", &got, &want)?;
    Ok(())
}
fn default55<X: Shape55<X>+ Log + Send + Sync + 'static>(_: &[u8], _: u64) -> Outcome
{
    super::same("a default method", &<X as Shape55<X>>::twice55(), &2000)
}
/// u8, u8, u8, u8, u8, u8, u8
#[delegatable_protocol]
trait Shape56<P>
where
    P: Log
{
    fn work56(rng0: u8, protocol1: u8, lhs2: u8, rhs3: u8, x4: u8, value_5: u8, item6: u8,) -> Vec<u64>;
    /// documented
    fn apply56(protocol0: u8, lhs1: u8, rhs2: u8, x3: u8, value_4: u8, item5: u8, _unused6: u8,) -> Vec<u64>;
    fn offset() -> u64 {
        1000
    }
    fn twice56() -> u64 {
        Self::offset() * 2
    }
}
pub struct Worker56<P>(PhantomData<P>);
impl<P> Shape56<P> for Worker56<P>
where
    P: Log
{
    fn work56(rng0: u8, protocol1: u8, lhs2: u8, rhs3: u8, x4: u8, value_5: u8, item6: u8,) -> Vec<u64>
    {
        let e0: u64 = rng0 as u64; let e1: u64 = protocol1 as u64; let e2: u64 = lhs2 as u64; let e3: u64 = rhs3 as u64; let e4: u64 = x4 as u64; let e5: u64 = value_5 as u64; let e6: u64 = item6 as u64; let r: Vec<u64> = vec![1, 56, 0, e0, e1, e2, e3, e4, e5, e6]; r
    }
    fn apply56(protocol0: u8, lhs1: u8, rhs2: u8, x3: u8, value_4: u8, item5: u8, _unused6: u8,) -> Vec<u64>
    {
        let e0: u64 = protocol0 as u64; let e1: u64 = lhs1 as u64; let e2: u64 = rhs2 as u64; let e3: u64 = x3 as u64; let e4: u64 = value_4 as u64; let e5: u64 = item5 as u64; let e6: u64 = _unused6 as u64; let r: Vec<u64> = vec![1, 56, 1, e0, e1, e2, e3, e4, e5, e6]; r
    }
}
pub struct Decoy56<P>(PhantomData<P>);
impl<P> Shape56<P> for Decoy56<P>
where
    P: Log
{
    fn work56(rng0: u8, protocol1: u8, lhs2: u8, rhs3: u8, x4: u8, value_5: u8, item6: u8,) -> Vec<u64>
    {
        let e0: u64 = rng0 as u64; let e1: u64 = protocol1 as u64; let e2: u64 = lhs2 as u64; let e3: u64 = rhs3 as u64; let e4: u64 = x4 as u64; let e5: u64 = value_5 as u64; let e6: u64 = item6 as u64; let r: Vec<u64> = vec![3, 56, 0, e0, e1, e2, e3, e4, e5, e6]; r
    }
    fn apply56(protocol0: u8, lhs1: u8, rhs2: u8, x3: u8, value_4: u8, item5: u8, _unused6: u8,) -> Vec<u64>
    {
        let e0: u64 = protocol0 as u64; let e1: u64 = lhs1 as u64; let e2: u64 = rhs2 as u64; let e3: u64 = x3 as u64; let e4: u64 = value_4 as u64; let e5: u64 = item5 as u64; let e6: u64 = _unused6 as u64; let r: Vec<u64> = vec![3, 56, 1, e0, e1, e2, e3, e4, e5, e6]; r
    }
}
impl Shape56Marker for Dele {
    type Marker = Delegate;
}
impl Shape56Delegate<Dele> for Dele {
    type Delegate = Worker56<Dele>;
}
impl Shape56Marker for Own {
    type Marker = OwnMarker;
}
impl Shape56Delegate<Own> for Own {
    type Delegate = Decoy56<Own>;
}
impl Shape56Impl<Own, OwnMarker> for Own {
    fn work56(rng0: u8, protocol1: u8, lhs2: u8, rhs3: u8, x4: u8, value_5: u8, item6: u8,) -> Vec<u64>
    {
        let e0: u64 = rng0 as u64; let e1: u64 = protocol1 as u64; let e2: u64 = lhs2 as u64; let e3: u64 = rhs3 as u64; let e4: u64 = x4 as u64; let e5: u64 = value_5 as u64; let e6: u64 = item6 as u64; let r: Vec<u64> = vec![2, 56, 0, e0, e1, e2, e3, e4, e5, e6]; r
    }
    fn apply56(protocol0: u8, lhs1: u8, rhs2: u8, x3: u8, value_4: u8, item5: u8, _unused6: u8,) -> Vec<u64>
    {
        let e0: u64 = protocol0 as u64; let e1: u64 = lhs1 as u64; let e2: u64 = rhs2 as u64; let e3: u64 = x3 as u64; let e4: u64 = value_4 as u64; let e5: u64 = item5 as u64; let e6: u64 = _unused6 as u64; let r: Vec<u64> = vec![2, 56, 1, e0, e1, e2, e3, e4, e5, e6]; r
    }
}
fn call56_0<X: Shape56<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5]; let mut v6 = v[6];
    let want: Vec<u64> = vec![tag, 56, 0, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64, v6 as u64];
    let got = <X as Shape56<X>>::work56(v0, v1, v2, v3, v4, v5, v6);
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call56_1<X: Shape56<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5]; let mut v6 = v[6];
    let want: Vec<u64> = vec![tag, 56, 1, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64, v6 as u64];
    let got = <X as Shape56<X>>::apply56(v0, v1, v2, v3, v4, v5, v6);
    super::same("the result", &got, &want)?;
    Ok(())
}
fn default56<X: Shape56<X>+ Log + Send + Sync + 'static>(_: &[u8], _: u64) -> Outcome
{
    super::same("a default method", &<X as Shape56<X>>::twice56(), &2000)
}
/// u8, u8, u8, u8, u8, u8, u8
#[delegatable_protocol]
pub(crate) trait Shape57<T, P, S>
where
    P: Log,
    S: IntoIterator<Item = T>,
    T: Into<u64>
{
    fn work57<'a>(delegate: u8, super_: u8, b: u8, condition: u8, secret: u8, threshold: u8, P: u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    /// documented
    fn apply57<'a>(x10: u8, right: u8, first: u8, elements: u8, protocol: u8, other: u8, args: u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    fn begin57<'a>(output: u8, operand_a: u8, lhs: u8, count: u8, index: u8, marker: u8, x2: u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
}
pub struct Worker57<T, P, S>(PhantomData<T>, PhantomData<P>, PhantomData<S>);
impl<T, P, S> Shape57<T, P, S> for Worker57<T, P, S>
where
    P: Log,
    S: IntoIterator<Item = T>,
    T: Into<u64>
{
    fn work57<'a>(delegate: u8, super_: u8, b: u8, condition: u8, secret: u8, threshold: u8, P: u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = delegate as u64; let e1: u64 = super_ as u64; let e2: u64 = b as u64; let e3: u64 = condition as u64; let e4: u64 = secret as u64; let e5: u64 = threshold as u64; let e6: u64 = P as u64; let r: Vec<u64> = vec![1, 57, 0, e0, e1, e2, e3, e4, e5, e6]; Box::pin(async move { r })
    }
    fn apply57<'a>(x10: u8, right: u8, first: u8, elements: u8, protocol: u8, other: u8, args: u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = x10 as u64; let e1: u64 = right as u64; let e2: u64 = first as u64; let e3: u64 = elements as u64; let e4: u64 = protocol as u64; let e5: u64 = other as u64; let e6: u64 = args as u64; let r: Vec<u64> = vec![1, 57, 1, e0, e1, e2, e3, e4, e5, e6]; Box::pin(async move { r })
    }
    fn begin57<'a>(output: u8, operand_a: u8, lhs: u8, count: u8, index: u8, marker: u8, x2: u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = output as u64; let e1: u64 = operand_a as u64; let e2: u64 = lhs as u64; let e3: u64 = count as u64; let e4: u64 = index as u64; let e5: u64 = marker as u64; let e6: u64 = x2 as u64; let r: Vec<u64> = vec![1, 57, 2, e0, e1, e2, e3, e4, e5, e6]; Box::pin(async move { r })
    }
}
pub struct Decoy57<T, P, S>(PhantomData<T>, PhantomData<P>, PhantomData<S>);
impl<T, P, S> Shape57<T, P, S> for Decoy57<T, P, S>
where
    P: Log,
    S: IntoIterator<Item = T>,
    T: Into<u64>
{
    fn work57<'a>(delegate: u8, super_: u8, b: u8, condition: u8, secret: u8, threshold: u8, P: u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = delegate as u64; let e1: u64 = super_ as u64; let e2: u64 = b as u64; let e3: u64 = condition as u64; let e4: u64 = secret as u64; let e5: u64 = threshold as u64; let e6: u64 = P as u64; let r: Vec<u64> = vec![3, 57, 0, e0, e1, e2, e3, e4, e5, e6]; Box::pin(async move { r })
    }
    fn apply57<'a>(x10: u8, right: u8, first: u8, elements: u8, protocol: u8, other: u8, args: u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = x10 as u64; let e1: u64 = right as u64; let e2: u64 = first as u64; let e3: u64 = elements as u64; let e4: u64 = protocol as u64; let e5: u64 = other as u64; let e6: u64 = args as u64; let r: Vec<u64> = vec![3, 57, 1, e0, e1, e2, e3, e4, e5, e6]; Box::pin(async move { r })
    }
    fn begin57<'a>(output: u8, operand_a: u8, lhs: u8, count: u8, index: u8, marker: u8, x2: u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = output as u64; let e1: u64 = operand_a as u64; let e2: u64 = lhs as u64; let e3: u64 = count as u64; let e4: u64 = index as u64; let e5: u64 = marker as u64; let e6: u64 = x2 as u64; let r: Vec<u64> = vec![3, 57, 2, e0, e1, e2, e3, e4, e5, e6]; Box::pin(async move { r })
    }
}
impl Shape57Marker for Dele {
    type Marker = Delegate;
}
impl Shape57Delegate<u8, Dele, Vec<u8>> for Dele {
    type Delegate = Worker57<u8, Dele, Vec<u8>>;
}
impl Shape57Marker for Own {
    type Marker = OwnMarker;
}
impl Shape57Delegate<u8, Own, Vec<u8>> for Own {
    type Delegate = Decoy57<u8, Own, Vec<u8>>;
}
impl Shape57Impl<u8, Own, Vec<u8>, OwnMarker> for Own {
    fn work57<'a>(delegate: u8, super_: u8, b: u8, condition: u8, secret: u8, threshold: u8, P: u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = delegate as u64; let e1: u64 = super_ as u64; let e2: u64 = b as u64; let e3: u64 = condition as u64; let e4: u64 = secret as u64; let e5: u64 = threshold as u64; let e6: u64 = P as u64; let r: Vec<u64> = vec![2, 57, 0, e0, e1, e2, e3, e4, e5, e6]; Box::pin(async move { r })
    }
    fn apply57<'a>(x10: u8, right: u8, first: u8, elements: u8, protocol: u8, other: u8, args: u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = x10 as u64; let e1: u64 = right as u64; let e2: u64 = first as u64; let e3: u64 = elements as u64; let e4: u64 = protocol as u64; let e5: u64 = other as u64; let e6: u64 = args as u64; let r: Vec<u64> = vec![2, 57, 1, e0, e1, e2, e3, e4, e5, e6]; Box::pin(async move { r })
    }
    fn begin57<'a>(output: u8, operand_a: u8, lhs: u8, count: u8, index: u8, marker: u8, x2: u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = output as u64; let e1: u64 = operand_a as u64; let e2: u64 = lhs as u64; let e3: u64 = count as u64; let e4: u64 = index as u64; let e5: u64 = marker as u64; let e6: u64 = x2 as u64; let r: Vec<u64> = vec![2, 57, 2, e0, e1, e2, e3, e4, e5, e6]; Box::pin(async move { r })
    }
}
fn call57_0<X: Shape57<u8, X, Vec<u8>> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5]; let mut v6 = v[6];
    let want: Vec<u64> = vec![tag, 57, 0, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64, v6 as u64];
    let got = block_on(<X as Shape57<u8, X, Vec<u8>>>::work57(v0, v1, v2, v3, v4, v5, v6));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call57_1<X: Shape57<u8, X, Vec<u8>> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5]; let mut v6 = v[6];
    let want: Vec<u64> = vec![tag, 57, 1, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64, v6 as u64];
    let got = block_on(<X as Shape57<u8, X, Vec<u8>>>::apply57(v0, v1, v2, v3, v4, v5, v6));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call57_2<X: Shape57<u8, X, Vec<u8>> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5]; let mut v6 = v[6];
    let want: Vec<u64> = vec![tag, 57, 2, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64, v6 as u64];
    let got = block_on(<X as Shape57<u8, X, Vec<u8>>>::begin57(v0, v1, v2, v3, v4, v5, v6));
    super::same("the result", &got, &want)?;
    Ok(())
}
/// u64, u64, u64, u64, u64, u64, u64, u64, u64
#[delegatable_protocol]
pub(crate) trait Shape58<P, T>
where
    P: Log + Send + Sync,
    T: Clone + 'static,
{
    fn work58<'a>(rng0: u64, protocol1: u64, lhs2: u64, rhs3: u64, x4: u64, value_5: u64, item6: u64, _unused7: u64, self_8: u64,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    /// documented
    fn apply58<'a>(protocol0: u64, lhs1: u64, rhs2: u64, x3: u64, value_4: u64, item5: u64, _unused6: u64, self_7: u64, r#type8: u64,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    fn begin58<'a>(lhs0: u64, rhs1: u64, x2: u64, value_3: u64, item4: u64, _unused5: u64, self_6: u64, r#type7: u64, rng8: u64,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
}
pub struct Worker58<P, T>(PhantomData<P>, PhantomData<T>);
impl<P, T> Shape58<P, T> for Worker58<P, T>
where
    P: Log + Send + Sync,
    T: Clone + 'static,
{
    fn work58<'a>(rng0: u64, protocol1: u64, lhs2: u64, rhs3: u64, x4: u64, value_5: u64, item6: u64, _unused7: u64, self_8: u64,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = rng0; let e1: u64 = protocol1; let e2: u64 = lhs2; let e3: u64 = rhs3; let e4: u64 = x4; let e5: u64 = value_5; let e6: u64 = item6; let e7: u64 = _unused7; let e8: u64 = self_8; let r: Vec<u64> = vec![1, 58, 0, e0, e1, e2, e3, e4, e5, e6, e7, e8]; Box::pin(async move { r })
    }
    fn apply58<'a>(protocol0: u64, lhs1: u64, rhs2: u64, x3: u64, value_4: u64, item5: u64, _unused6: u64, self_7: u64, r#type8: u64,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = protocol0; let e1: u64 = lhs1; let e2: u64 = rhs2; let e3: u64 = x3; let e4: u64 = value_4; let e5: u64 = item5; let e6: u64 = _unused6; let e7: u64 = self_7; let e8: u64 = r#type8; let r: Vec<u64> = vec![1, 58, 1, e0, e1, e2, e3, e4, e5, e6, e7, e8]; Box::pin(async move { r })
    }
    fn begin58<'a>(lhs0: u64, rhs1: u64, x2: u64, value_3: u64, item4: u64, _unused5: u64, self_6: u64, r#type7: u64, rng8: u64,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = lhs0; let e1: u64 = rhs1; let e2: u64 = x2; let e3: u64 = value_3; let e4: u64 = item4; let e5: u64 = _unused5; let e6: u64 = self_6; let e7: u64 = r#type7; let e8: u64 = rng8; let r: Vec<u64> = vec![1, 58, 2, e0, e1, e2, e3, e4, e5, e6, e7, e8]; Box::pin(async move { r })
    }
}
pub struct Decoy58<P, T>(PhantomData<P>, PhantomData<T>);
impl<P, T> Shape58<P, T> for Decoy58<P, T>
where
    P: Log + Send + Sync,
    T: Clone + 'static,
{
    fn work58<'a>(rng0: u64, protocol1: u64, lhs2: u64, rhs3: u64, x4: u64, value_5: u64, item6: u64, _unused7: u64, self_8: u64,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = rng0; let e1: u64 = protocol1; let e2: u64 = lhs2; let e3: u64 = rhs3; let e4: u64 = x4; let e5: u64 = value_5; let e6: u64 = item6; let e7: u64 = _unused7; let e8: u64 = self_8; let r: Vec<u64> = vec![3, 58, 0, e0, e1, e2, e3, e4, e5, e6, e7, e8]; Box::pin(async move { r })
    }
    fn apply58<'a>(protocol0: u64, lhs1: u64, rhs2: u64, x3: u64, value_4: u64, item5: u64, _unused6: u64, self_7: u64, r#type8: u64,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = protocol0; let e1: u64 = lhs1; let e2: u64 = rhs2; let e3: u64 = x3; let e4: u64 = value_4; let e5: u64 = item5; let e6: u64 = _unused6; let e7: u64 = self_7; let e8: u64 = r#type8; let r: Vec<u64> = vec![3, 58, 1, e0, e1, e2, e3, e4, e5, e6, e7, e8]; Box::pin(async move { r })
    }
    fn begin58<'a>(lhs0: u64, rhs1: u64, x2: u64, value_3: u64, item4: u64, _unused5: u64, self_6: u64, r#type7: u64, rng8: u64,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = lhs0; let e1: u64 = rhs1; let e2: u64 = x2; let e3: u64 = value_3; let e4: u64 = item4; let e5: u64 = _unused5; let e6: u64 = self_6; let e7: u64 = r#type7; let e8: u64 = rng8; let r: Vec<u64> = vec![3, 58, 2, e0, e1, e2, e3, e4, e5, e6, e7, e8]; Box::pin(async move { r })
    }
}
impl Shape58Marker for Dele {
    type Marker = Delegate;
}
impl Shape58Delegate<Dele, u8> for Dele {
    type Delegate = Worker58<Dele, u8>;
}
impl Shape58Marker for Own {
    type Marker = OwnMarker;
}
impl Shape58Delegate<Own, u8> for Own {
    type Delegate = Decoy58<Own, u8>;
}
impl Shape58Impl<Own, u8, OwnMarker> for Own {
    fn work58<'a>(rng0: u64, protocol1: u64, lhs2: u64, rhs3: u64, x4: u64, value_5: u64, item6: u64, _unused7: u64, self_8: u64,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = rng0; let e1: u64 = protocol1; let e2: u64 = lhs2; let e3: u64 = rhs3; let e4: u64 = x4; let e5: u64 = value_5; let e6: u64 = item6; let e7: u64 = _unused7; let e8: u64 = self_8; let r: Vec<u64> = vec![2, 58, 0, e0, e1, e2, e3, e4, e5, e6, e7, e8]; Box::pin(async move { r })
    }
    fn apply58<'a>(protocol0: u64, lhs1: u64, rhs2: u64, x3: u64, value_4: u64, item5: u64, _unused6: u64, self_7: u64, r#type8: u64,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = protocol0; let e1: u64 = lhs1; let e2: u64 = rhs2; let e3: u64 = x3; let e4: u64 = value_4; let e5: u64 = item5; let e6: u64 = _unused6; let e7: u64 = self_7; let e8: u64 = r#type8; let r: Vec<u64> = vec![2, 58, 1, e0, e1, e2, e3, e4, e5, e6, e7, e8]; Box::pin(async move { r })
    }
    fn begin58<'a>(lhs0: u64, rhs1: u64, x2: u64, value_3: u64, item4: u64, _unused5: u64, self_6: u64, r#type7: u64, rng8: u64,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let e0: u64 = lhs0; let e1: u64 = rhs1; let e2: u64 = x2; let e3: u64 = value_3; let e4: u64 = item4; let e5: u64 = _unused5; let e6: u64 = self_6; let e7: u64 = r#type7; let e8: u64 = rng8; let r: Vec<u64> = vec![2, 58, 2, e0, e1, e2, e3, e4, e5, e6, e7, e8]; Box::pin(async move { r })
    }
}
fn call58_0<X: Shape58<X, u8> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5]; let mut v6 = v[6]; let mut v7 = v[7]; let mut v8 = v[8];
    let want: Vec<u64> = vec![tag, 58, 0, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64, v6 as u64, v7 as u64, v8 as u64];
    let got = block_on(<X as Shape58<X, u8>>::work58(v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64, v6 as u64, v7 as u64, v8 as u64));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call58_1<X: Shape58<X, u8> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5]; let mut v6 = v[6]; let mut v7 = v[7]; let mut v8 = v[8];
    let want: Vec<u64> = vec![tag, 58, 1, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64, v6 as u64, v7 as u64, v8 as u64];
    let got = block_on(<X as Shape58<X, u8>>::apply58(v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64, v6 as u64, v7 as u64, v8 as u64));
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call58_2<X: Shape58<X, u8> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5]; let mut v6 = v[6]; let mut v7 = v[7]; let mut v8 = v[8];
    let want: Vec<u64> = vec![tag, 58, 2, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64, v6 as u64, v7 as u64, v8 as u64];
    let got = block_on(<X as Shape58<X, u8>>::begin58(v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64, v6 as u64, v7 as u64, v8 as u64));
    super::same("the result", &got, &want)?;
    Ok(())
}
/// u64, u64, u64, u64, u64, u64, u64, u64, u64
#[delegatable_protocol]
pub trait Shape59<A, B, C, D, E, F, G, P>
where
    P: Log
{
    fn work59(x1: u64, left: u64, operand_b: u64, rhs: u64, rng: u64, values: u64, delegate: u64, super_: u64, b: u64) -> Result<Vec<u64>, String>;
}
pub struct Worker59<A, B, C, D, E, F, G, P>(PhantomData<A>, PhantomData<B>, PhantomData<C>, PhantomData<D>, PhantomData<E>, PhantomData<F>, PhantomData<G>, PhantomData<P>);
impl<A, B, C, D, E, F, G, P> Shape59<A, B, C, D, E, F, G, P> for Worker59<A, B, C, D, E, F, G, P>
where
    P: Log
{
    fn work59(x1: u64, left: u64, operand_b: u64, rhs: u64, rng: u64, values: u64, delegate: u64, super_: u64, b: u64) -> Result<Vec<u64>, String>
    {
        let e0: u64 = x1; let e1: u64 = left; let e2: u64 = operand_b; let e3: u64 = rhs; let e4: u64 = rng; let e5: u64 = values; let e6: u64 = delegate; let e7: u64 = super_; let e8: u64 = b; let r: Vec<u64> = vec![1, 59, 0, e0, e1, e2, e3, e4, e5, e6, e7, e8]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
pub struct Decoy59<A, B, C, D, E, F, G, P>(PhantomData<A>, PhantomData<B>, PhantomData<C>, PhantomData<D>, PhantomData<E>, PhantomData<F>, PhantomData<G>, PhantomData<P>);
impl<A, B, C, D, E, F, G, P> Shape59<A, B, C, D, E, F, G, P> for Decoy59<A, B, C, D, E, F, G, P>
where
    P: Log
{
    fn work59(x1: u64, left: u64, operand_b: u64, rhs: u64, rng: u64, values: u64, delegate: u64, super_: u64, b: u64) -> Result<Vec<u64>, String>
    {
        let e0: u64 = x1; let e1: u64 = left; let e2: u64 = operand_b; let e3: u64 = rhs; let e4: u64 = rng; let e5: u64 = values; let e6: u64 = delegate; let e7: u64 = super_; let e8: u64 = b; let r: Vec<u64> = vec![3, 59, 0, e0, e1, e2, e3, e4, e5, e6, e7, e8]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
impl Shape59Marker for Dele {
    type Marker = Delegate;
}
impl Shape59Delegate<u8, u16, u32, u64, i8, i16, i32, Dele> for Dele {
    type Delegate = Worker59<u8, u16, u32, u64, i8, i16, i32, Dele>;
}
impl Shape59Marker for Own {
    type Marker = OwnMarker;
}
impl Shape59Delegate<u8, u16, u32, u64, i8, i16, i32, Own> for Own {
    type Delegate = Decoy59<u8, u16, u32, u64, i8, i16, i32, Own>;
}
impl Shape59Impl<u8, u16, u32, u64, i8, i16, i32, Own, OwnMarker> for Own {
    fn work59(x1: u64, left: u64, operand_b: u64, rhs: u64, rng: u64, values: u64, delegate: u64, super_: u64, b: u64) -> Result<Vec<u64>, String>
    {
        let e0: u64 = x1; let e1: u64 = left; let e2: u64 = operand_b; let e3: u64 = rhs; let e4: u64 = rng; let e5: u64 = values; let e6: u64 = delegate; let e7: u64 = super_; let e8: u64 = b; let r: Vec<u64> = vec![2, 59, 0, e0, e1, e2, e3, e4, e5, e6, e7, e8]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
fn call59_0<X: Shape59<u8, u16, u32, u64, i8, i16, i32, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5]; let mut v6 = v[6]; let mut v7 = v[7]; let mut v8 = v[8];
    let want: Vec<u64> = vec![tag, 59, 0, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64, v6 as u64, v7 as u64, v8 as u64];
    let got = <X as Shape59<u8, u16, u32, u64, i8, i16, i32, X>>::work59(v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64, v6 as u64, v7 as u64, v8 as u64);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
/// ref, ref, ref, ref, ref, ref, ref, ref, ref, ref, ref, ref
#[delegatable_protocol]
pub trait Shape60<'b, T, P>
where
    P: Log,
    T: Send
{
    fn work60(rng0: &u8, protocol1: &u8, lhs2: &u8, rhs3: &u8, x4: &u8, value_5: &u8, item6: &u8, _unused7: &u8, self_8: &u8, r#type9: &u8, rng10: &u8, protocol11: &u8) -> Result<Vec<u64>, String>;
}
pub struct Worker60<'b, T, P>(PhantomData<&'b ()>, PhantomData<T>, PhantomData<P>);
impl<'b, T, P> Shape60<'b, T, P> for Worker60<'b, T, P>
where
    P: Log,
    T: Send
{
    fn work60(rng0: &u8, protocol1: &u8, lhs2: &u8, rhs3: &u8, x4: &u8, value_5: &u8, item6: &u8, _unused7: &u8, self_8: &u8, r#type9: &u8, rng10: &u8, protocol11: &u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = *rng0 as u64; let e1: u64 = *protocol1 as u64; let e2: u64 = *lhs2 as u64; let e3: u64 = *rhs3 as u64; let e4: u64 = *x4 as u64; let e5: u64 = *value_5 as u64; let e6: u64 = *item6 as u64; let e7: u64 = *_unused7 as u64; let e8: u64 = *self_8 as u64; let e9: u64 = *r#type9 as u64; let e10: u64 = *rng10 as u64; let e11: u64 = *protocol11 as u64; let r: Vec<u64> = vec![1, 60, 0, e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
pub struct Decoy60<'b, T, P>(PhantomData<&'b ()>, PhantomData<T>, PhantomData<P>);
impl<'b, T, P> Shape60<'b, T, P> for Decoy60<'b, T, P>
where
    P: Log,
    T: Send
{
    fn work60(rng0: &u8, protocol1: &u8, lhs2: &u8, rhs3: &u8, x4: &u8, value_5: &u8, item6: &u8, _unused7: &u8, self_8: &u8, r#type9: &u8, rng10: &u8, protocol11: &u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = *rng0 as u64; let e1: u64 = *protocol1 as u64; let e2: u64 = *lhs2 as u64; let e3: u64 = *rhs3 as u64; let e4: u64 = *x4 as u64; let e5: u64 = *value_5 as u64; let e6: u64 = *item6 as u64; let e7: u64 = *_unused7 as u64; let e8: u64 = *self_8 as u64; let e9: u64 = *r#type9 as u64; let e10: u64 = *rng10 as u64; let e11: u64 = *protocol11 as u64; let r: Vec<u64> = vec![3, 60, 0, e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
impl Shape60Marker for Dele {
    type Marker = Delegate;
}
impl Shape60Delegate<'static, u8, Dele> for Dele {
    type Delegate = Worker60<'static, u8, Dele>;
}
impl Shape60Marker for Own {
    type Marker = OwnMarker;
}
impl Shape60Delegate<'static, u8, Own> for Own {
    type Delegate = Decoy60<'static, u8, Own>;
}
impl Shape60Impl<'static, u8, Own, OwnMarker> for Own {
    fn work60(rng0: &u8, protocol1: &u8, lhs2: &u8, rhs3: &u8, x4: &u8, value_5: &u8, item6: &u8, _unused7: &u8, self_8: &u8, r#type9: &u8, rng10: &u8, protocol11: &u8) -> Result<Vec<u64>, String>
    {
        let e0: u64 = *rng0 as u64; let e1: u64 = *protocol1 as u64; let e2: u64 = *lhs2 as u64; let e3: u64 = *rhs3 as u64; let e4: u64 = *x4 as u64; let e5: u64 = *value_5 as u64; let e6: u64 = *item6 as u64; let e7: u64 = *_unused7 as u64; let e8: u64 = *self_8 as u64; let e9: u64 = *r#type9 as u64; let e10: u64 = *rng10 as u64; let e11: u64 = *protocol11 as u64; let r: Vec<u64> = vec![2, 60, 0, e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
fn call60_0<X: Shape60<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5]; let mut v6 = v[6]; let mut v7 = v[7]; let mut v8 = v[8]; let mut v9 = v[9]; let mut v10 = v[10]; let mut v11 = v[11];
    let want: Vec<u64> = vec![tag, 60, 0, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64, v6 as u64, v7 as u64, v8 as u64, v9 as u64, v10 as u64, v11 as u64];
    let got = <X as Shape60<'static, u8, X>>::work60(&v0, &v1, &v2, &v3, &v4, &v5, &v6, &v7, &v8, &v9, &v10, &v11);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
/// ref, ref, ref, ref, ref, ref, ref, ref, ref, ref, ref, ref
#[delegatable_protocol]
trait Shape61<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send,
{
    fn work61(x2: &u8, a: &u8, second: &u8, bits: &u8, shares: &u8, z: &u8, x1: &u8, left: &u8, operand_b: &u8, rhs: &u8, rng: &u8, values: &u8,);
    /// documented
    fn apply61(left: &u8, operand_b: &u8, rhs: &u8, rng: &u8, values: &u8, delegate: &u8, super_: &u8, b: &u8, condition: &u8, secret: &u8, threshold: &u8, P: &u8,);
}
pub struct Worker61<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape61<T, S, P> for Worker61<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send,
{
    fn work61(x2: &u8, a: &u8, second: &u8, bits: &u8, shares: &u8, z: &u8, x1: &u8, left: &u8, operand_b: &u8, rhs: &u8, rng: &u8, values: &u8,)
    {
        let e0: u64 = *x2 as u64; let e1: u64 = *a as u64; let e2: u64 = *second as u64; let e3: u64 = *bits as u64; let e4: u64 = *shares as u64; let e5: u64 = *z as u64; let e6: u64 = *x1 as u64; let e7: u64 = *left as u64; let e8: u64 = *operand_b as u64; let e9: u64 = *rhs as u64; let e10: u64 = *rng as u64; let e11: u64 = *values as u64; let r: Vec<u64> = vec![1, 61, 0, e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11]; super::note(r);
    }
    fn apply61(left: &u8, operand_b: &u8, rhs: &u8, rng: &u8, values: &u8, delegate: &u8, super_: &u8, b: &u8, condition: &u8, secret: &u8, threshold: &u8, P: &u8,)
    {
        let e0: u64 = *left as u64; let e1: u64 = *operand_b as u64; let e2: u64 = *rhs as u64; let e3: u64 = *rng as u64; let e4: u64 = *values as u64; let e5: u64 = *delegate as u64; let e6: u64 = *super_ as u64; let e7: u64 = *b as u64; let e8: u64 = *condition as u64; let e9: u64 = *secret as u64; let e10: u64 = *threshold as u64; let e11: u64 = *P as u64; let r: Vec<u64> = vec![1, 61, 1, e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11]; super::note(r);
    }
}
pub struct Decoy61<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape61<T, S, P> for Decoy61<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send,
{
    fn work61(x2: &u8, a: &u8, second: &u8, bits: &u8, shares: &u8, z: &u8, x1: &u8, left: &u8, operand_b: &u8, rhs: &u8, rng: &u8, values: &u8,)
    {
        let e0: u64 = *x2 as u64; let e1: u64 = *a as u64; let e2: u64 = *second as u64; let e3: u64 = *bits as u64; let e4: u64 = *shares as u64; let e5: u64 = *z as u64; let e6: u64 = *x1 as u64; let e7: u64 = *left as u64; let e8: u64 = *operand_b as u64; let e9: u64 = *rhs as u64; let e10: u64 = *rng as u64; let e11: u64 = *values as u64; let r: Vec<u64> = vec![3, 61, 0, e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11]; super::note(r);
    }
    fn apply61(left: &u8, operand_b: &u8, rhs: &u8, rng: &u8, values: &u8, delegate: &u8, super_: &u8, b: &u8, condition: &u8, secret: &u8, threshold: &u8, P: &u8,)
    {
        let e0: u64 = *left as u64; let e1: u64 = *operand_b as u64; let e2: u64 = *rhs as u64; let e3: u64 = *rng as u64; let e4: u64 = *values as u64; let e5: u64 = *delegate as u64; let e6: u64 = *super_ as u64; let e7: u64 = *b as u64; let e8: u64 = *condition as u64; let e9: u64 = *secret as u64; let e10: u64 = *threshold as u64; let e11: u64 = *P as u64; let r: Vec<u64> = vec![3, 61, 1, e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11]; super::note(r);
    }
}
impl Shape61Marker for Dele {
    type Marker = Delegate;
}
impl Shape61Delegate<u8, u16, Dele> for Dele {
    type Delegate = Worker61<u8, u16, Dele>;
}
impl Shape61Marker for Own {
    type Marker = OwnMarker;
}
impl Shape61Delegate<u8, u16, Own> for Own {
    type Delegate = Decoy61<u8, u16, Own>;
}
impl Shape61Impl<u8, u16, Own, OwnMarker> for Own {
    fn work61(x2: &u8, a: &u8, second: &u8, bits: &u8, shares: &u8, z: &u8, x1: &u8, left: &u8, operand_b: &u8, rhs: &u8, rng: &u8, values: &u8,)
    {
        let e0: u64 = *x2 as u64; let e1: u64 = *a as u64; let e2: u64 = *second as u64; let e3: u64 = *bits as u64; let e4: u64 = *shares as u64; let e5: u64 = *z as u64; let e6: u64 = *x1 as u64; let e7: u64 = *left as u64; let e8: u64 = *operand_b as u64; let e9: u64 = *rhs as u64; let e10: u64 = *rng as u64; let e11: u64 = *values as u64; let r: Vec<u64> = vec![2, 61, 0, e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11]; super::note(r);
    }
    fn apply61(left: &u8, operand_b: &u8, rhs: &u8, rng: &u8, values: &u8, delegate: &u8, super_: &u8, b: &u8, condition: &u8, secret: &u8, threshold: &u8, P: &u8,)
    {
        let e0: u64 = *left as u64; let e1: u64 = *operand_b as u64; let e2: u64 = *rhs as u64; let e3: u64 = *rng as u64; let e4: u64 = *values as u64; let e5: u64 = *delegate as u64; let e6: u64 = *super_ as u64; let e7: u64 = *b as u64; let e8: u64 = *condition as u64; let e9: u64 = *secret as u64; let e10: u64 = *threshold as u64; let e11: u64 = *P as u64; let r: Vec<u64> = vec![2, 61, 1, e0, e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11]; super::note(r);
    }
}
fn call61_0<X: Shape61<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5]; let mut v6 = v[6]; let mut v7 = v[7]; let mut v8 = v[8]; let mut v9 = v[9]; let mut v10 = v[10]; let mut v11 = v[11];
    let want: Vec<u64> = vec![tag, 61, 0, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64, v6 as u64, v7 as u64, v8 as u64, v9 as u64, v10 as u64, v11 as u64];
    let got: () = <X as Shape61<u8, u16, X>>::work61(&v0, &v1, &v2, &v3, &v4, &v5, &v6, &v7, &v8, &v9, &v10, &v11); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call61_1<X: Shape61<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5]; let mut v6 = v[6]; let mut v7 = v[7]; let mut v8 = v[8]; let mut v9 = v[9]; let mut v10 = v[10]; let mut v11 = v[11];
    let want: Vec<u64> = vec![tag, 61, 1, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64, v6 as u64, v7 as u64, v8 as u64, v9 as u64, v10 as u64, v11 as u64];
    let got: () = <X as Shape61<u8, u16, X>>::apply61(&v0, &v1, &v2, &v3, &v4, &v5, &v6, &v7, &v8, &v9, &v10, &v11); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
/// u8, ref, protlt, slice, pair, opt, gen, u8, reflt
#[delegatable_protocol]
trait Shape62<Marked, Other, P>
where
    P: Log,
    Marked: Copy,
    Other: Copy,
{
    fn work62<'a, Q6>(rng0: u8, protocol1: &u8, lhs2: &'a mut P, rhs3: &[u8], x4: (u8, u8), value_5: Option<u8>, item6: Q6, _unused7: u8, self_8: &'a u8)
    where
        Q6: Into<u64>;
    /// documented
    fn apply62<'a, Q2>(protocol0: &'a u8, lhs1: u8, rhs2: Q2, x3: Option<u8>, value_4: (u8, u8), item5: &[u8], _unused6: &'a mut P, self_7: &u8, r#type8: u8)
    where
        Q2: Into<u64>;
}
pub struct Worker62<Marked, Other, P>(PhantomData<Marked>, PhantomData<Other>, PhantomData<P>);
impl<Marked, Other, P> Shape62<Marked, Other, P> for Worker62<Marked, Other, P>
where
    P: Log,
    Marked: Copy,
    Other: Copy,
{
    fn work62<'a, Q6>(rng0: u8, protocol1: &u8, lhs2: &'a mut P, rhs3: &[u8], x4: (u8, u8), value_5: Option<u8>, item6: Q6, _unused7: u8, self_8: &'a u8)
    where
        Q6: Into<u64>
    {
        let e0: u64 = rng0 as u64; let e1: u64 = *protocol1 as u64; let e3: u64 = rhs3.iter().fold(rhs3.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = x4.0 as u64 * 256 + x4.1 as u64; let e5: u64 = value_5.map_or(77, |x| x as u64); let e6: u64 = item6.into(); let e7: u64 = _unused7 as u64; let e8: u64 = *self_8 as u64; let r: Vec<u64> = vec![1, 62, 0, e0, e1, e3, e4, e5, e6, e7, e8]; lhs2.log(r.clone()); super::note(r);
    }
    fn apply62<'a, Q2>(protocol0: &'a u8, lhs1: u8, rhs2: Q2, x3: Option<u8>, value_4: (u8, u8), item5: &[u8], _unused6: &'a mut P, self_7: &u8, r#type8: u8)
    where
        Q2: Into<u64>
    {
        let e0: u64 = *protocol0 as u64; let e1: u64 = lhs1 as u64; let e2: u64 = rhs2.into(); let e3: u64 = x3.map_or(77, |x| x as u64); let e4: u64 = value_4.0 as u64 * 256 + value_4.1 as u64; let e5: u64 = item5.iter().fold(item5.len() as u64, |a, x| a * 256 + *x as u64); let e7: u64 = *self_7 as u64; let e8: u64 = r#type8 as u64; let r: Vec<u64> = vec![1, 62, 1, e0, e1, e2, e3, e4, e5, e7, e8]; _unused6.log(r.clone()); super::note(r);
    }
}
pub struct Decoy62<Marked, Other, P>(PhantomData<Marked>, PhantomData<Other>, PhantomData<P>);
impl<Marked, Other, P> Shape62<Marked, Other, P> for Decoy62<Marked, Other, P>
where
    P: Log,
    Marked: Copy,
    Other: Copy,
{
    fn work62<'a, Q6>(rng0: u8, protocol1: &u8, lhs2: &'a mut P, rhs3: &[u8], x4: (u8, u8), value_5: Option<u8>, item6: Q6, _unused7: u8, self_8: &'a u8)
    where
        Q6: Into<u64>
    {
        let e0: u64 = rng0 as u64; let e1: u64 = *protocol1 as u64; let e3: u64 = rhs3.iter().fold(rhs3.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = x4.0 as u64 * 256 + x4.1 as u64; let e5: u64 = value_5.map_or(77, |x| x as u64); let e6: u64 = item6.into(); let e7: u64 = _unused7 as u64; let e8: u64 = *self_8 as u64; let r: Vec<u64> = vec![3, 62, 0, e0, e1, e3, e4, e5, e6, e7, e8]; lhs2.log(r.clone()); super::note(r);
    }
    fn apply62<'a, Q2>(protocol0: &'a u8, lhs1: u8, rhs2: Q2, x3: Option<u8>, value_4: (u8, u8), item5: &[u8], _unused6: &'a mut P, self_7: &u8, r#type8: u8)
    where
        Q2: Into<u64>
    {
        let e0: u64 = *protocol0 as u64; let e1: u64 = lhs1 as u64; let e2: u64 = rhs2.into(); let e3: u64 = x3.map_or(77, |x| x as u64); let e4: u64 = value_4.0 as u64 * 256 + value_4.1 as u64; let e5: u64 = item5.iter().fold(item5.len() as u64, |a, x| a * 256 + *x as u64); let e7: u64 = *self_7 as u64; let e8: u64 = r#type8 as u64; let r: Vec<u64> = vec![3, 62, 1, e0, e1, e2, e3, e4, e5, e7, e8]; _unused6.log(r.clone()); super::note(r);
    }
}
impl Shape62Marker for Dele {
    type Marker = Delegate;
}
impl Shape62Delegate<u8, u16, Dele> for Dele {
    type Delegate = Worker62<u8, u16, Dele>;
}
impl Shape62Marker for Own {
    type Marker = OwnMarker;
}
impl Shape62Delegate<u8, u16, Own> for Own {
    type Delegate = Decoy62<u8, u16, Own>;
}
impl Shape62Impl<u8, u16, Own, OwnMarker> for Own {
    fn work62<'a, Q6>(rng0: u8, protocol1: &u8, lhs2: &'a mut Own, rhs3: &[u8], x4: (u8, u8), value_5: Option<u8>, item6: Q6, _unused7: u8, self_8: &'a u8)
    where
        Q6: Into<u64>
    {
        let e0: u64 = rng0 as u64; let e1: u64 = *protocol1 as u64; let e3: u64 = rhs3.iter().fold(rhs3.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = x4.0 as u64 * 256 + x4.1 as u64; let e5: u64 = value_5.map_or(77, |x| x as u64); let e6: u64 = item6.into(); let e7: u64 = _unused7 as u64; let e8: u64 = *self_8 as u64; let r: Vec<u64> = vec![2, 62, 0, e0, e1, e3, e4, e5, e6, e7, e8]; lhs2.log(r.clone()); super::note(r);
    }
    fn apply62<'a, Q2>(protocol0: &'a u8, lhs1: u8, rhs2: Q2, x3: Option<u8>, value_4: (u8, u8), item5: &[u8], _unused6: &'a mut Own, self_7: &u8, r#type8: u8)
    where
        Q2: Into<u64>
    {
        let e0: u64 = *protocol0 as u64; let e1: u64 = lhs1 as u64; let e2: u64 = rhs2.into(); let e3: u64 = x3.map_or(77, |x| x as u64); let e4: u64 = value_4.0 as u64 * 256 + value_4.1 as u64; let e5: u64 = item5.iter().fold(item5.len() as u64, |a, x| a * 256 + *x as u64); let e7: u64 = *self_7 as u64; let e8: u64 = r#type8 as u64; let r: Vec<u64> = vec![2, 62, 1, e0, e1, e2, e3, e4, e5, e7, e8]; _unused6.log(r.clone()); super::note(r);
    }
}
fn call62_0<X: Shape62<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v3 = v[2]; let mut v4 = v[3]; let mut v5 = v[4]; let mut v6 = v[5]; let mut v7 = v[6]; let mut v8 = v[7];
    let want: Vec<u64> = vec![tag, 62, 0, v0 as u64, v1 as u64, (2 * 256 + v3 as u64) * 256 + v3 as u64 + 1, v4 as u64 * 256 + (v4 ^ 5) as u64, if v5 == 0 { 77 } else { v5 as u64 }, v6 as u64, v7 as u64, v8 as u64];
    let mut protocol = X::fresh();
    let got: () = <X as Shape62<u8, u16, X>>::work62(v0, &v1, &mut protocol, &[v3, v3 + 1][..], (v4, v4 ^ 5), if v5 == 0 { None } else { Some(v5) }, v6 as u16, v7, &v8); let got = super::noted();
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call62_1<X: Shape62<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5]; let mut v7 = v[6]; let mut v8 = v[7];
    let want: Vec<u64> = vec![tag, 62, 1, v0 as u64, v1 as u64, v2 as u64, if v3 == 0 { 77 } else { v3 as u64 }, v4 as u64 * 256 + (v4 ^ 5) as u64, (2 * 256 + v5 as u64) * 256 + v5 as u64 + 1, v7 as u64, v8 as u64];
    let mut protocol = X::fresh();
    let got: () = <X as Shape62<u8, u16, X>>::apply62(&v0, v1, v2 as u16, if v3 == 0 { None } else { Some(v3) }, (v4, v4 ^ 5), &[v5, v5 + 1][..], &mut protocol, &v7, v8); let got = super::noted();
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
/// u8, ref, protlt, slice, pair, opt, gen, u8, reflt
#[delegatable_protocol]
pub(crate) trait Shape63<P>
where
    P: Log
{
    fn work63<'a, Q6>(output: u8, operand_a: &u8, lhs: &'a mut P, count: &[u8], index: (u8, u8), marker: Option<u8>, x2: Q6, a: u8, second: &'a u8,) -> Vec<u64>
    where
        Q6: Into<u64>,;
    /// documented
    fn apply63<'a, Q2>(a: &'a u8, second: u8, bits: Q2, shares: Option<u8>, z: (u8, u8), x1: &[u8], left: &'a mut P, operand_b: &u8, rhs: u8,) -> Vec<u64>
    where
        Q2: Into<u64>,;
    fn begin63<'a, Q6>(operand_b: u8, rhs: &u8, rng: &'a mut P, values: &[u8], delegate: (u8, u8), super_: Option<u8>, b: Q6, condition: u8, secret: &'a u8,) -> Vec<u64>
    where
        Q6: Into<u64>,;
    fn offset() -> u64 {
        1000
    }
    fn twice63() -> u64 {
        Self::offset() * 2
    }
}
pub struct Worker63<P>(PhantomData<P>);
impl<P> Shape63<P> for Worker63<P>
where
    P: Log
{
    fn work63<'a, Q6>(output: u8, operand_a: &u8, lhs: &'a mut P, count: &[u8], index: (u8, u8), marker: Option<u8>, x2: Q6, a: u8, second: &'a u8,) -> Vec<u64>
    where
        Q6: Into<u64>,
    {
        let e0: u64 = output as u64; let e1: u64 = *operand_a as u64; let e3: u64 = count.iter().fold(count.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = index.0 as u64 * 256 + index.1 as u64; let e5: u64 = marker.map_or(77, |x| x as u64); let e6: u64 = x2.into(); let e7: u64 = a as u64; let e8: u64 = *second as u64; let r: Vec<u64> = vec![1, 63, 0, e0, e1, e3, e4, e5, e6, e7, e8]; lhs.log(r.clone()); r
    }
    fn apply63<'a, Q2>(a: &'a u8, second: u8, bits: Q2, shares: Option<u8>, z: (u8, u8), x1: &[u8], left: &'a mut P, operand_b: &u8, rhs: u8,) -> Vec<u64>
    where
        Q2: Into<u64>,
    {
        let e0: u64 = *a as u64; let e1: u64 = second as u64; let e2: u64 = bits.into(); let e3: u64 = shares.map_or(77, |x| x as u64); let e4: u64 = z.0 as u64 * 256 + z.1 as u64; let e5: u64 = x1.iter().fold(x1.len() as u64, |a, x| a * 256 + *x as u64); let e7: u64 = *operand_b as u64; let e8: u64 = rhs as u64; let r: Vec<u64> = vec![1, 63, 1, e0, e1, e2, e3, e4, e5, e7, e8]; left.log(r.clone()); r
    }
    fn begin63<'a, Q6>(operand_b: u8, rhs: &u8, rng: &'a mut P, values: &[u8], delegate: (u8, u8), super_: Option<u8>, b: Q6, condition: u8, secret: &'a u8,) -> Vec<u64>
    where
        Q6: Into<u64>,
    {
        let e0: u64 = operand_b as u64; let e1: u64 = *rhs as u64; let e3: u64 = values.iter().fold(values.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = delegate.0 as u64 * 256 + delegate.1 as u64; let e5: u64 = super_.map_or(77, |x| x as u64); let e6: u64 = b.into(); let e7: u64 = condition as u64; let e8: u64 = *secret as u64; let r: Vec<u64> = vec![1, 63, 2, e0, e1, e3, e4, e5, e6, e7, e8]; rng.log(r.clone()); r
    }
}
pub struct Decoy63<P>(PhantomData<P>);
impl<P> Shape63<P> for Decoy63<P>
where
    P: Log
{
    fn work63<'a, Q6>(output: u8, operand_a: &u8, lhs: &'a mut P, count: &[u8], index: (u8, u8), marker: Option<u8>, x2: Q6, a: u8, second: &'a u8,) -> Vec<u64>
    where
        Q6: Into<u64>,
    {
        let e0: u64 = output as u64; let e1: u64 = *operand_a as u64; let e3: u64 = count.iter().fold(count.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = index.0 as u64 * 256 + index.1 as u64; let e5: u64 = marker.map_or(77, |x| x as u64); let e6: u64 = x2.into(); let e7: u64 = a as u64; let e8: u64 = *second as u64; let r: Vec<u64> = vec![3, 63, 0, e0, e1, e3, e4, e5, e6, e7, e8]; lhs.log(r.clone()); r
    }
    fn apply63<'a, Q2>(a: &'a u8, second: u8, bits: Q2, shares: Option<u8>, z: (u8, u8), x1: &[u8], left: &'a mut P, operand_b: &u8, rhs: u8,) -> Vec<u64>
    where
        Q2: Into<u64>,
    {
        let e0: u64 = *a as u64; let e1: u64 = second as u64; let e2: u64 = bits.into(); let e3: u64 = shares.map_or(77, |x| x as u64); let e4: u64 = z.0 as u64 * 256 + z.1 as u64; let e5: u64 = x1.iter().fold(x1.len() as u64, |a, x| a * 256 + *x as u64); let e7: u64 = *operand_b as u64; let e8: u64 = rhs as u64; let r: Vec<u64> = vec![3, 63, 1, e0, e1, e2, e3, e4, e5, e7, e8]; left.log(r.clone()); r
    }
    fn begin63<'a, Q6>(operand_b: u8, rhs: &u8, rng: &'a mut P, values: &[u8], delegate: (u8, u8), super_: Option<u8>, b: Q6, condition: u8, secret: &'a u8,) -> Vec<u64>
    where
        Q6: Into<u64>,
    {
        let e0: u64 = operand_b as u64; let e1: u64 = *rhs as u64; let e3: u64 = values.iter().fold(values.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = delegate.0 as u64 * 256 + delegate.1 as u64; let e5: u64 = super_.map_or(77, |x| x as u64); let e6: u64 = b.into(); let e7: u64 = condition as u64; let e8: u64 = *secret as u64; let r: Vec<u64> = vec![3, 63, 2, e0, e1, e3, e4, e5, e6, e7, e8]; rng.log(r.clone()); r
    }
}
impl Shape63Marker for Dele {
    type Marker = Delegate;
}
impl Shape63Delegate<Dele> for Dele {
    type Delegate = Worker63<Dele>;
}
impl Shape63Marker for Own {
    type Marker = OwnMarker;
}
impl Shape63Delegate<Own> for Own {
    type Delegate = Decoy63<Own>;
}
impl Shape63Impl<Own, OwnMarker> for Own {
    fn work63<'a, Q6>(output: u8, operand_a: &u8, lhs: &'a mut Own, count: &[u8], index: (u8, u8), marker: Option<u8>, x2: Q6, a: u8, second: &'a u8,) -> Vec<u64>
    where
        Q6: Into<u64>,
    {
        let e0: u64 = output as u64; let e1: u64 = *operand_a as u64; let e3: u64 = count.iter().fold(count.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = index.0 as u64 * 256 + index.1 as u64; let e5: u64 = marker.map_or(77, |x| x as u64); let e6: u64 = x2.into(); let e7: u64 = a as u64; let e8: u64 = *second as u64; let r: Vec<u64> = vec![2, 63, 0, e0, e1, e3, e4, e5, e6, e7, e8]; lhs.log(r.clone()); r
    }
    fn apply63<'a, Q2>(a: &'a u8, second: u8, bits: Q2, shares: Option<u8>, z: (u8, u8), x1: &[u8], left: &'a mut Own, operand_b: &u8, rhs: u8,) -> Vec<u64>
    where
        Q2: Into<u64>,
    {
        let e0: u64 = *a as u64; let e1: u64 = second as u64; let e2: u64 = bits.into(); let e3: u64 = shares.map_or(77, |x| x as u64); let e4: u64 = z.0 as u64 * 256 + z.1 as u64; let e5: u64 = x1.iter().fold(x1.len() as u64, |a, x| a * 256 + *x as u64); let e7: u64 = *operand_b as u64; let e8: u64 = rhs as u64; let r: Vec<u64> = vec![2, 63, 1, e0, e1, e2, e3, e4, e5, e7, e8]; left.log(r.clone()); r
    }
    fn begin63<'a, Q6>(operand_b: u8, rhs: &u8, rng: &'a mut Own, values: &[u8], delegate: (u8, u8), super_: Option<u8>, b: Q6, condition: u8, secret: &'a u8,) -> Vec<u64>
    where
        Q6: Into<u64>,
    {
        let e0: u64 = operand_b as u64; let e1: u64 = *rhs as u64; let e3: u64 = values.iter().fold(values.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = delegate.0 as u64 * 256 + delegate.1 as u64; let e5: u64 = super_.map_or(77, |x| x as u64); let e6: u64 = b.into(); let e7: u64 = condition as u64; let e8: u64 = *secret as u64; let r: Vec<u64> = vec![2, 63, 2, e0, e1, e3, e4, e5, e6, e7, e8]; rng.log(r.clone()); r
    }
}
fn call63_0<X: Shape63<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v3 = v[2]; let mut v4 = v[3]; let mut v5 = v[4]; let mut v6 = v[5]; let mut v7 = v[6]; let mut v8 = v[7];
    let want: Vec<u64> = vec![tag, 63, 0, v0 as u64, v1 as u64, (2 * 256 + v3 as u64) * 256 + v3 as u64 + 1, v4 as u64 * 256 + (v4 ^ 5) as u64, if v5 == 0 { 77 } else { v5 as u64 }, v6 as u64, v7 as u64, v8 as u64];
    let mut protocol = X::fresh();
    let got = <X as Shape63<X>>::work63(v0, &v1, &mut protocol, &[v3, v3 + 1][..], (v4, v4 ^ 5), if v5 == 0 { None } else { Some(v5) }, v6 as u16, v7, &v8);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call63_1<X: Shape63<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5]; let mut v7 = v[6]; let mut v8 = v[7];
    let want: Vec<u64> = vec![tag, 63, 1, v0 as u64, v1 as u64, v2 as u64, if v3 == 0 { 77 } else { v3 as u64 }, v4 as u64 * 256 + (v4 ^ 5) as u64, (2 * 256 + v5 as u64) * 256 + v5 as u64 + 1, v7 as u64, v8 as u64];
    let mut protocol = X::fresh();
    let got = <X as Shape63<X>>::apply63(&v0, v1, v2 as u16, if v3 == 0 { None } else { Some(v3) }, (v4, v4 ^ 5), &[v5, v5 + 1][..], &mut protocol, &v7, v8);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call63_2<X: Shape63<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v3 = v[2]; let mut v4 = v[3]; let mut v5 = v[4]; let mut v6 = v[5]; let mut v7 = v[6]; let mut v8 = v[7];
    let want: Vec<u64> = vec![tag, 63, 2, v0 as u64, v1 as u64, (2 * 256 + v3 as u64) * 256 + v3 as u64 + 1, v4 as u64 * 256 + (v4 ^ 5) as u64, if v5 == 0 { 77 } else { v5 as u64 }, v6 as u64, v7 as u64, v8 as u64];
    let mut protocol = X::fresh();
    let got = <X as Shape63<X>>::begin63(v0, &v1, &mut protocol, &[v3, v3 + 1][..], (v4, v4 ^ 5), if v5 == 0 { None } else { Some(v5) }, v6 as u16, v7, &v8);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn default63<X: Shape63<X>+ Log + Send + Sync + 'static>(_: &[u8], _: u64) -> Outcome
{
    super::same("a default method", &<X as Shape63<X>>::twice63(), &2000)
}
/// mut, gen, fn, u8, prot, opt, pair, ref
#[delegatable_protocol]
pub(crate) trait Shape64<T, S, P,>
where
    P: Log + Send,
    T: Send,
    S: Send
{
    fn work64<Q1>(rng0: &mut u8, protocol1: Q1, lhs2: fn(u8) -> u8, rhs3: u8, x4: &mut P, value_5: Option<u8>, item6: (u8, u8), _unused7: &u8,) -> Vec<u64>
    where
        Q1: Into<u64>,;
    /// documented
    fn apply64<Q6>(protocol0: &u8, lhs1: (u8, u8), rhs2: Option<u8>, x3: &mut P, value_4: u8, item5: fn(u8) -> u8, _unused6: Q6, self_7: &mut u8,) -> Vec<u64>
    where
        Q6: Into<u64>,;
    fn begin64<Q1>(lhs0: &mut u8, rhs1: Q1, x2: fn(u8) -> u8, value_3: u8, item4: &mut P, _unused5: Option<u8>, self_6: (u8, u8), r#type7: &u8,) -> Vec<u64>
    where
        Q1: Into<u64>,;
    fn offset() -> u64 {
        1000
    }
    fn twice64() -> u64 {
        Self::offset() * 2
    }
}
pub struct Worker64<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape64<T, S, P> for Worker64<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send
{
    fn work64<Q1>(rng0: &mut u8, protocol1: Q1, lhs2: fn(u8) -> u8, rhs3: u8, x4: &mut P, value_5: Option<u8>, item6: (u8, u8), _unused7: &u8,) -> Vec<u64>
    where
        Q1: Into<u64>,
    {
        let e0: u64 = { *rng0 += 10; *rng0 as u64 - 10 }; let e1: u64 = protocol1.into(); let e2: u64 = lhs2(3) as u64; let e3: u64 = rhs3 as u64; let e5: u64 = value_5.map_or(77, |x| x as u64); let e6: u64 = item6.0 as u64 * 256 + item6.1 as u64; let e7: u64 = *_unused7 as u64; let r: Vec<u64> = vec![1, 64, 0, e0, e1, e2, e3, e5, e6, e7]; x4.log(r.clone()); r
    }
    fn apply64<Q6>(protocol0: &u8, lhs1: (u8, u8), rhs2: Option<u8>, x3: &mut P, value_4: u8, item5: fn(u8) -> u8, _unused6: Q6, self_7: &mut u8,) -> Vec<u64>
    where
        Q6: Into<u64>,
    {
        let e0: u64 = *protocol0 as u64; let e1: u64 = lhs1.0 as u64 * 256 + lhs1.1 as u64; let e2: u64 = rhs2.map_or(77, |x| x as u64); let e4: u64 = value_4 as u64; let e5: u64 = item5(3) as u64; let e6: u64 = _unused6.into(); let e7: u64 = { *self_7 += 10; *self_7 as u64 - 10 }; let r: Vec<u64> = vec![1, 64, 1, e0, e1, e2, e4, e5, e6, e7]; x3.log(r.clone()); r
    }
    fn begin64<Q1>(lhs0: &mut u8, rhs1: Q1, x2: fn(u8) -> u8, value_3: u8, item4: &mut P, _unused5: Option<u8>, self_6: (u8, u8), r#type7: &u8,) -> Vec<u64>
    where
        Q1: Into<u64>,
    {
        let e0: u64 = { *lhs0 += 10; *lhs0 as u64 - 10 }; let e1: u64 = rhs1.into(); let e2: u64 = x2(3) as u64; let e3: u64 = value_3 as u64; let e5: u64 = _unused5.map_or(77, |x| x as u64); let e6: u64 = self_6.0 as u64 * 256 + self_6.1 as u64; let e7: u64 = *r#type7 as u64; let r: Vec<u64> = vec![1, 64, 2, e0, e1, e2, e3, e5, e6, e7]; item4.log(r.clone()); r
    }
}
pub struct Decoy64<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape64<T, S, P> for Decoy64<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send
{
    fn work64<Q1>(rng0: &mut u8, protocol1: Q1, lhs2: fn(u8) -> u8, rhs3: u8, x4: &mut P, value_5: Option<u8>, item6: (u8, u8), _unused7: &u8,) -> Vec<u64>
    where
        Q1: Into<u64>,
    {
        let e0: u64 = { *rng0 += 10; *rng0 as u64 - 10 }; let e1: u64 = protocol1.into(); let e2: u64 = lhs2(3) as u64; let e3: u64 = rhs3 as u64; let e5: u64 = value_5.map_or(77, |x| x as u64); let e6: u64 = item6.0 as u64 * 256 + item6.1 as u64; let e7: u64 = *_unused7 as u64; let r: Vec<u64> = vec![3, 64, 0, e0, e1, e2, e3, e5, e6, e7]; x4.log(r.clone()); r
    }
    fn apply64<Q6>(protocol0: &u8, lhs1: (u8, u8), rhs2: Option<u8>, x3: &mut P, value_4: u8, item5: fn(u8) -> u8, _unused6: Q6, self_7: &mut u8,) -> Vec<u64>
    where
        Q6: Into<u64>,
    {
        let e0: u64 = *protocol0 as u64; let e1: u64 = lhs1.0 as u64 * 256 + lhs1.1 as u64; let e2: u64 = rhs2.map_or(77, |x| x as u64); let e4: u64 = value_4 as u64; let e5: u64 = item5(3) as u64; let e6: u64 = _unused6.into(); let e7: u64 = { *self_7 += 10; *self_7 as u64 - 10 }; let r: Vec<u64> = vec![3, 64, 1, e0, e1, e2, e4, e5, e6, e7]; x3.log(r.clone()); r
    }
    fn begin64<Q1>(lhs0: &mut u8, rhs1: Q1, x2: fn(u8) -> u8, value_3: u8, item4: &mut P, _unused5: Option<u8>, self_6: (u8, u8), r#type7: &u8,) -> Vec<u64>
    where
        Q1: Into<u64>,
    {
        let e0: u64 = { *lhs0 += 10; *lhs0 as u64 - 10 }; let e1: u64 = rhs1.into(); let e2: u64 = x2(3) as u64; let e3: u64 = value_3 as u64; let e5: u64 = _unused5.map_or(77, |x| x as u64); let e6: u64 = self_6.0 as u64 * 256 + self_6.1 as u64; let e7: u64 = *r#type7 as u64; let r: Vec<u64> = vec![3, 64, 2, e0, e1, e2, e3, e5, e6, e7]; item4.log(r.clone()); r
    }
}
impl Shape64Marker for Dele {
    type Marker = Delegate;
}
impl Shape64Delegate<u8, u16, Dele> for Dele {
    type Delegate = Worker64<u8, u16, Dele>;
}
impl Shape64Marker for Own {
    type Marker = OwnMarker;
}
impl Shape64Delegate<u8, u16, Own> for Own {
    type Delegate = Decoy64<u8, u16, Own>;
}
impl Shape64Impl<u8, u16, Own, OwnMarker> for Own {
    fn work64<Q1>(rng0: &mut u8, protocol1: Q1, lhs2: fn(u8) -> u8, rhs3: u8, x4: &mut Own, value_5: Option<u8>, item6: (u8, u8), _unused7: &u8,) -> Vec<u64>
    where
        Q1: Into<u64>,
    {
        let e0: u64 = { *rng0 += 10; *rng0 as u64 - 10 }; let e1: u64 = protocol1.into(); let e2: u64 = lhs2(3) as u64; let e3: u64 = rhs3 as u64; let e5: u64 = value_5.map_or(77, |x| x as u64); let e6: u64 = item6.0 as u64 * 256 + item6.1 as u64; let e7: u64 = *_unused7 as u64; let r: Vec<u64> = vec![2, 64, 0, e0, e1, e2, e3, e5, e6, e7]; x4.log(r.clone()); r
    }
    fn apply64<Q6>(protocol0: &u8, lhs1: (u8, u8), rhs2: Option<u8>, x3: &mut Own, value_4: u8, item5: fn(u8) -> u8, _unused6: Q6, self_7: &mut u8,) -> Vec<u64>
    where
        Q6: Into<u64>,
    {
        let e0: u64 = *protocol0 as u64; let e1: u64 = lhs1.0 as u64 * 256 + lhs1.1 as u64; let e2: u64 = rhs2.map_or(77, |x| x as u64); let e4: u64 = value_4 as u64; let e5: u64 = item5(3) as u64; let e6: u64 = _unused6.into(); let e7: u64 = { *self_7 += 10; *self_7 as u64 - 10 }; let r: Vec<u64> = vec![2, 64, 1, e0, e1, e2, e4, e5, e6, e7]; x3.log(r.clone()); r
    }
    fn begin64<Q1>(lhs0: &mut u8, rhs1: Q1, x2: fn(u8) -> u8, value_3: u8, item4: &mut Own, _unused5: Option<u8>, self_6: (u8, u8), r#type7: &u8,) -> Vec<u64>
    where
        Q1: Into<u64>,
    {
        let e0: u64 = { *lhs0 += 10; *lhs0 as u64 - 10 }; let e1: u64 = rhs1.into(); let e2: u64 = x2(3) as u64; let e3: u64 = value_3 as u64; let e5: u64 = _unused5.map_or(77, |x| x as u64); let e6: u64 = self_6.0 as u64 * 256 + self_6.1 as u64; let e7: u64 = *r#type7 as u64; let r: Vec<u64> = vec![2, 64, 2, e0, e1, e2, e3, e5, e6, e7]; item4.log(r.clone()); r
    }
}
fn call64_0<X: Shape64<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v5 = v[4]; let mut v6 = v[5]; let mut v7 = v[6];
    let want: Vec<u64> = vec![tag, 64, 0, v0 as u64, v1 as u64, 3 + v2 as u64, v3 as u64, if v5 == 0 { 77 } else { v5 as u64 }, v6 as u64 * 256 + (v6 ^ 5) as u64, v7 as u64];
    let mut protocol = X::fresh();
    let v0_before = v0;
    let got = <X as Shape64<u8, u16, X>>::work64(&mut v0, v1 as u16, [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v2 as usize], v3, &mut protocol, if v5 == 0 { None } else { Some(v5) }, (v6, v6 ^ 5), &v7);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    super::same("a changed argument", &v0, &(v0_before + 10))?;
    Ok(())
}
fn call64_1<X: Shape64<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v4 = v[3]; let mut v5 = v[4]; let mut v6 = v[5]; let mut v7 = v[6];
    let want: Vec<u64> = vec![tag, 64, 1, v0 as u64, v1 as u64 * 256 + (v1 ^ 5) as u64, if v2 == 0 { 77 } else { v2 as u64 }, v4 as u64, 3 + v5 as u64, v6 as u64, v7 as u64];
    let mut protocol = X::fresh();
    let v7_before = v7;
    let got = <X as Shape64<u8, u16, X>>::apply64(&v0, (v1, v1 ^ 5), if v2 == 0 { None } else { Some(v2) }, &mut protocol, v4, [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v5 as usize], v6 as u16, &mut v7);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    super::same("a changed argument", &v7, &(v7_before + 10))?;
    Ok(())
}
fn call64_2<X: Shape64<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v5 = v[4]; let mut v6 = v[5]; let mut v7 = v[6];
    let want: Vec<u64> = vec![tag, 64, 2, v0 as u64, v1 as u64, 3 + v2 as u64, v3 as u64, if v5 == 0 { 77 } else { v5 as u64 }, v6 as u64 * 256 + (v6 ^ 5) as u64, v7 as u64];
    let mut protocol = X::fresh();
    let v0_before = v0;
    let got = <X as Shape64<u8, u16, X>>::begin64(&mut v0, v1 as u16, [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v2 as usize], v3, &mut protocol, if v5 == 0 { None } else { Some(v5) }, (v6, v6 ^ 5), &v7);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    super::same("a changed argument", &v0, &(v0_before + 10))?;
    Ok(())
}
fn default64<X: Shape64<u8, u16, X>+ Log + Send + Sync + 'static>(_: &[u8], _: u64) -> Outcome
{
    super::same("a default method", &<X as Shape64<u8, u16, X>>::twice64(), &2000)
}
/// mut, gen, fn, u8, prot, opt, pair, ref
#[delegatable_protocol]
pub trait Shape65<P, T>
where
    P: Log + Send + Sync,
    T: Clone + 'static,
{
    fn work65<'a, Q1>(right: &mut u8, first: Q1, elements: fn(u8) -> u8, protocol: u8, other: &mut P, args: Option<u8>, output: (u8, u8), operand_a: &u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    where
        Q1: Into<u64>;
}
pub struct Worker65<P, T>(PhantomData<P>, PhantomData<T>);
impl<P, T> Shape65<P, T> for Worker65<P, T>
where
    P: Log + Send + Sync,
    T: Clone + 'static,
{
    fn work65<'a, Q1>(right: &mut u8, first: Q1, elements: fn(u8) -> u8, protocol: u8, other: &mut P, args: Option<u8>, output: (u8, u8), operand_a: &u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    where
        Q1: Into<u64>
    {
        let e0: u64 = { *right += 10; *right as u64 - 10 }; let e1: u64 = first.into(); let e2: u64 = elements(3) as u64; let e3: u64 = protocol as u64; let e5: u64 = args.map_or(77, |x| x as u64); let e6: u64 = output.0 as u64 * 256 + output.1 as u64; let e7: u64 = *operand_a as u64; let r: Vec<u64> = vec![1, 65, 0, e0, e1, e2, e3, e5, e6, e7]; other.log(r.clone()); Box::pin(async move { r })
    }
}
pub struct Decoy65<P, T>(PhantomData<P>, PhantomData<T>);
impl<P, T> Shape65<P, T> for Decoy65<P, T>
where
    P: Log + Send + Sync,
    T: Clone + 'static,
{
    fn work65<'a, Q1>(right: &mut u8, first: Q1, elements: fn(u8) -> u8, protocol: u8, other: &mut P, args: Option<u8>, output: (u8, u8), operand_a: &u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    where
        Q1: Into<u64>
    {
        let e0: u64 = { *right += 10; *right as u64 - 10 }; let e1: u64 = first.into(); let e2: u64 = elements(3) as u64; let e3: u64 = protocol as u64; let e5: u64 = args.map_or(77, |x| x as u64); let e6: u64 = output.0 as u64 * 256 + output.1 as u64; let e7: u64 = *operand_a as u64; let r: Vec<u64> = vec![3, 65, 0, e0, e1, e2, e3, e5, e6, e7]; other.log(r.clone()); Box::pin(async move { r })
    }
}
impl Shape65Marker for Dele {
    type Marker = Delegate;
}
impl Shape65Delegate<Dele, u8> for Dele {
    type Delegate = Worker65<Dele, u8>;
}
impl Shape65Marker for Own {
    type Marker = OwnMarker;
}
impl Shape65Delegate<Own, u8> for Own {
    type Delegate = Decoy65<Own, u8>;
}
impl Shape65Impl<Own, u8, OwnMarker> for Own {
    fn work65<'a, Q1>(right: &mut u8, first: Q1, elements: fn(u8) -> u8, protocol: u8, other: &mut Own, args: Option<u8>, output: (u8, u8), operand_a: &u8) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    where
        Q1: Into<u64>
    {
        let e0: u64 = { *right += 10; *right as u64 - 10 }; let e1: u64 = first.into(); let e2: u64 = elements(3) as u64; let e3: u64 = protocol as u64; let e5: u64 = args.map_or(77, |x| x as u64); let e6: u64 = output.0 as u64 * 256 + output.1 as u64; let e7: u64 = *operand_a as u64; let r: Vec<u64> = vec![2, 65, 0, e0, e1, e2, e3, e5, e6, e7]; other.log(r.clone()); Box::pin(async move { r })
    }
}
fn call65_0<X: Shape65<X, u8> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v5 = v[4]; let mut v6 = v[5]; let mut v7 = v[6];
    let want: Vec<u64> = vec![tag, 65, 0, v0 as u64, v1 as u64, 3 + v2 as u64, v3 as u64, if v5 == 0 { 77 } else { v5 as u64 }, v6 as u64 * 256 + (v6 ^ 5) as u64, v7 as u64];
    let mut protocol = X::fresh();
    let v0_before = v0;
    let got = block_on(<X as Shape65<X, u8>>::work65(&mut v0, v1 as u16, [|x: u8| x, |x: u8| x + 1, |x: u8| x + 2][v2 as usize], v3, &mut protocol, if v5 == 0 { None } else { Some(v5) }, (v6, v6 ^ 5), &v7));
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    super::same("a changed argument", &v0, &(v0_before + 10))?;
    Ok(())
}
/// gen, gen, gen, gen, gen, gen
#[delegatable_protocol]
pub trait Shape66<P,>
where
    P: Log,
{
    fn work66<'a, Q0, Q1, Q2, Q3, Q4, Q5>(rng0: Q0, protocol1: Q1, lhs2: Q2, rhs3: Q3, x4: Q4, value_5: Q5,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>,;
}
pub struct Worker66<P>(PhantomData<P>);
impl<P> Shape66<P> for Worker66<P>
where
    P: Log,
{
    fn work66<'a, Q0, Q1, Q2, Q3, Q4, Q5>(rng0: Q0, protocol1: Q1, lhs2: Q2, rhs3: Q3, x4: Q4, value_5: Q5,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>,
    {
        let e0: u64 = rng0.into(); let e1: u64 = protocol1.into(); let e2: u64 = lhs2.into(); let e3: u64 = rhs3.into(); let e4: u64 = x4.into(); let e5: u64 = value_5.into(); let r: Vec<u64> = vec![1, 66, 0, e0, e1, e2, e3, e4, e5]; Box::pin(async move { r })
    }
}
pub struct Decoy66<P>(PhantomData<P>);
impl<P> Shape66<P> for Decoy66<P>
where
    P: Log,
{
    fn work66<'a, Q0, Q1, Q2, Q3, Q4, Q5>(rng0: Q0, protocol1: Q1, lhs2: Q2, rhs3: Q3, x4: Q4, value_5: Q5,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>,
    {
        let e0: u64 = rng0.into(); let e1: u64 = protocol1.into(); let e2: u64 = lhs2.into(); let e3: u64 = rhs3.into(); let e4: u64 = x4.into(); let e5: u64 = value_5.into(); let r: Vec<u64> = vec![3, 66, 0, e0, e1, e2, e3, e4, e5]; Box::pin(async move { r })
    }
}
impl Shape66Marker for Dele {
    type Marker = Delegate;
}
impl Shape66Delegate<Dele> for Dele {
    type Delegate = Worker66<Dele>;
}
impl Shape66Marker for Own {
    type Marker = OwnMarker;
}
impl Shape66Delegate<Own> for Own {
    type Delegate = Decoy66<Own>;
}
impl Shape66Impl<Own, OwnMarker> for Own {
    fn work66<'a, Q0, Q1, Q2, Q3, Q4, Q5>(rng0: Q0, protocol1: Q1, lhs2: Q2, rhs3: Q3, x4: Q4, value_5: Q5,) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>,
    {
        let e0: u64 = rng0.into(); let e1: u64 = protocol1.into(); let e2: u64 = lhs2.into(); let e3: u64 = rhs3.into(); let e4: u64 = x4.into(); let e5: u64 = value_5.into(); let r: Vec<u64> = vec![2, 66, 0, e0, e1, e2, e3, e4, e5]; Box::pin(async move { r })
    }
}
fn call66_0<X: Shape66<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5];
    let want: Vec<u64> = vec![tag, 66, 0, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64];
    let got = block_on(<X as Shape66<X>>::work66(v0 as u16, v1 as u16, v2 as u16, v3 as u16, v4 as u16, v5 as u16));
    super::same("the result", &got, &want)?;
    Ok(())
}
/// gen, gen, gen, gen, gen, gen
#[delegatable_protocol]
trait Shape67<'b, T, P>
where
    P: Log,
    T: Send
{
    fn work67<Q0, Q1, Q2, Q3, Q4, Q5>(b: Q0, condition: Q1, secret: Q2, threshold: Q3, P: Q4, x10: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>;
    /// documented
    fn apply67<Q0, Q1, Q2, Q3, Q4, Q5>(first: Q0, elements: Q1, protocol: Q2, other: Q3, args: Q4, output: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>;
    fn begin67<Q0, Q1, Q2, Q3, Q4, Q5>(lhs: Q0, count: Q1, index: Q2, marker: Q3, x2: Q4, a: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>;
    /// documented
    fn zeta67<Q0, Q1, Q2, Q3, Q4, Q5>(bits: Q0, shares: Q1, z: Q2, x1: Q3, left: Q4, operand_b: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>;
    fn reveal67<Q0, Q1, Q2, Q3, Q4, Q5>(rng: Q0, values: Q1, delegate: Q2, super_: Q3, b: Q4, condition: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>;
    /// documented
    fn a67<Q0, Q1, Q2, Q3, Q4, Q5>(threshold: Q0, P: Q1, x10: Q2, right: Q3, first: Q4, elements: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>;
    fn Upper67<Q0, Q1, Q2, Q3, Q4, Q5>(other: Q0, args: Q1, output: Q2, operand_a: Q3, lhs: Q4, count: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>;
    /// documented
    fn snake_case_name_of_a_method67<Q0, Q1, Q2, Q3, Q4, Q5>(marker: Q0, x2: Q1, a: Q2, second: Q3, bits: Q4, shares: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>;
    fn new67<Q0, Q1, Q2, Q3, Q4, Q5>(x1: Q0, left: Q1, operand_b: Q2, rhs: Q3, rng: Q4, values: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>;
    /// documented
    fn delegate67<Q0, Q1, Q2, Q3, Q4, Q5>(super_: Q0, b: Q1, condition: Q2, secret: Q3, threshold: Q4, P: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>;
    fn p67<Q0, Q1, Q2, Q3, Q4, Q5>(right: Q0, first: Q1, elements: Q2, protocol: Q3, other: Q4, args: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>;
    /// documented
    fn multiply67<Q0, Q1, Q2, Q3, Q4, Q5>(operand_a: Q0, lhs: Q1, count: Q2, index: Q3, marker: Q4, x2: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>;
}
pub struct Worker67<'b, T, P>(PhantomData<&'b ()>, PhantomData<T>, PhantomData<P>);
impl<'b, T, P> Shape67<'b, T, P> for Worker67<'b, T, P>
where
    P: Log,
    T: Send
{
    fn work67<Q0, Q1, Q2, Q3, Q4, Q5>(b: Q0, condition: Q1, secret: Q2, threshold: Q3, P: Q4, x10: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = b.into(); let e1: u64 = condition.into(); let e2: u64 = secret.into(); let e3: u64 = threshold.into(); let e4: u64 = P.into(); let e5: u64 = x10.into(); let r: Vec<u64> = vec![1, 67, 0, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply67<Q0, Q1, Q2, Q3, Q4, Q5>(first: Q0, elements: Q1, protocol: Q2, other: Q3, args: Q4, output: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = first.into(); let e1: u64 = elements.into(); let e2: u64 = protocol.into(); let e3: u64 = other.into(); let e4: u64 = args.into(); let e5: u64 = output.into(); let r: Vec<u64> = vec![1, 67, 1, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn begin67<Q0, Q1, Q2, Q3, Q4, Q5>(lhs: Q0, count: Q1, index: Q2, marker: Q3, x2: Q4, a: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = lhs.into(); let e1: u64 = count.into(); let e2: u64 = index.into(); let e3: u64 = marker.into(); let e4: u64 = x2.into(); let e5: u64 = a.into(); let r: Vec<u64> = vec![1, 67, 2, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn zeta67<Q0, Q1, Q2, Q3, Q4, Q5>(bits: Q0, shares: Q1, z: Q2, x1: Q3, left: Q4, operand_b: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = bits.into(); let e1: u64 = shares.into(); let e2: u64 = z.into(); let e3: u64 = x1.into(); let e4: u64 = left.into(); let e5: u64 = operand_b.into(); let r: Vec<u64> = vec![1, 67, 3, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn reveal67<Q0, Q1, Q2, Q3, Q4, Q5>(rng: Q0, values: Q1, delegate: Q2, super_: Q3, b: Q4, condition: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = rng.into(); let e1: u64 = values.into(); let e2: u64 = delegate.into(); let e3: u64 = super_.into(); let e4: u64 = b.into(); let e5: u64 = condition.into(); let r: Vec<u64> = vec![1, 67, 4, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn a67<Q0, Q1, Q2, Q3, Q4, Q5>(threshold: Q0, P: Q1, x10: Q2, right: Q3, first: Q4, elements: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = threshold.into(); let e1: u64 = P.into(); let e2: u64 = x10.into(); let e3: u64 = right.into(); let e4: u64 = first.into(); let e5: u64 = elements.into(); let r: Vec<u64> = vec![1, 67, 5, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn Upper67<Q0, Q1, Q2, Q3, Q4, Q5>(other: Q0, args: Q1, output: Q2, operand_a: Q3, lhs: Q4, count: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = other.into(); let e1: u64 = args.into(); let e2: u64 = output.into(); let e3: u64 = operand_a.into(); let e4: u64 = lhs.into(); let e5: u64 = count.into(); let r: Vec<u64> = vec![1, 67, 6, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn snake_case_name_of_a_method67<Q0, Q1, Q2, Q3, Q4, Q5>(marker: Q0, x2: Q1, a: Q2, second: Q3, bits: Q4, shares: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = marker.into(); let e1: u64 = x2.into(); let e2: u64 = a.into(); let e3: u64 = second.into(); let e4: u64 = bits.into(); let e5: u64 = shares.into(); let r: Vec<u64> = vec![1, 67, 7, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn new67<Q0, Q1, Q2, Q3, Q4, Q5>(x1: Q0, left: Q1, operand_b: Q2, rhs: Q3, rng: Q4, values: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = x1.into(); let e1: u64 = left.into(); let e2: u64 = operand_b.into(); let e3: u64 = rhs.into(); let e4: u64 = rng.into(); let e5: u64 = values.into(); let r: Vec<u64> = vec![1, 67, 8, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn delegate67<Q0, Q1, Q2, Q3, Q4, Q5>(super_: Q0, b: Q1, condition: Q2, secret: Q3, threshold: Q4, P: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = super_.into(); let e1: u64 = b.into(); let e2: u64 = condition.into(); let e3: u64 = secret.into(); let e4: u64 = threshold.into(); let e5: u64 = P.into(); let r: Vec<u64> = vec![1, 67, 9, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn p67<Q0, Q1, Q2, Q3, Q4, Q5>(right: Q0, first: Q1, elements: Q2, protocol: Q3, other: Q4, args: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = right.into(); let e1: u64 = first.into(); let e2: u64 = elements.into(); let e3: u64 = protocol.into(); let e4: u64 = other.into(); let e5: u64 = args.into(); let r: Vec<u64> = vec![1, 67, 10, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn multiply67<Q0, Q1, Q2, Q3, Q4, Q5>(operand_a: Q0, lhs: Q1, count: Q2, index: Q3, marker: Q4, x2: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = operand_a.into(); let e1: u64 = lhs.into(); let e2: u64 = count.into(); let e3: u64 = index.into(); let e4: u64 = marker.into(); let e5: u64 = x2.into(); let r: Vec<u64> = vec![1, 67, 11, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
pub struct Decoy67<'b, T, P>(PhantomData<&'b ()>, PhantomData<T>, PhantomData<P>);
impl<'b, T, P> Shape67<'b, T, P> for Decoy67<'b, T, P>
where
    P: Log,
    T: Send
{
    fn work67<Q0, Q1, Q2, Q3, Q4, Q5>(b: Q0, condition: Q1, secret: Q2, threshold: Q3, P: Q4, x10: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = b.into(); let e1: u64 = condition.into(); let e2: u64 = secret.into(); let e3: u64 = threshold.into(); let e4: u64 = P.into(); let e5: u64 = x10.into(); let r: Vec<u64> = vec![3, 67, 0, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply67<Q0, Q1, Q2, Q3, Q4, Q5>(first: Q0, elements: Q1, protocol: Q2, other: Q3, args: Q4, output: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = first.into(); let e1: u64 = elements.into(); let e2: u64 = protocol.into(); let e3: u64 = other.into(); let e4: u64 = args.into(); let e5: u64 = output.into(); let r: Vec<u64> = vec![3, 67, 1, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn begin67<Q0, Q1, Q2, Q3, Q4, Q5>(lhs: Q0, count: Q1, index: Q2, marker: Q3, x2: Q4, a: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = lhs.into(); let e1: u64 = count.into(); let e2: u64 = index.into(); let e3: u64 = marker.into(); let e4: u64 = x2.into(); let e5: u64 = a.into(); let r: Vec<u64> = vec![3, 67, 2, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn zeta67<Q0, Q1, Q2, Q3, Q4, Q5>(bits: Q0, shares: Q1, z: Q2, x1: Q3, left: Q4, operand_b: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = bits.into(); let e1: u64 = shares.into(); let e2: u64 = z.into(); let e3: u64 = x1.into(); let e4: u64 = left.into(); let e5: u64 = operand_b.into(); let r: Vec<u64> = vec![3, 67, 3, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn reveal67<Q0, Q1, Q2, Q3, Q4, Q5>(rng: Q0, values: Q1, delegate: Q2, super_: Q3, b: Q4, condition: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = rng.into(); let e1: u64 = values.into(); let e2: u64 = delegate.into(); let e3: u64 = super_.into(); let e4: u64 = b.into(); let e5: u64 = condition.into(); let r: Vec<u64> = vec![3, 67, 4, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn a67<Q0, Q1, Q2, Q3, Q4, Q5>(threshold: Q0, P: Q1, x10: Q2, right: Q3, first: Q4, elements: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = threshold.into(); let e1: u64 = P.into(); let e2: u64 = x10.into(); let e3: u64 = right.into(); let e4: u64 = first.into(); let e5: u64 = elements.into(); let r: Vec<u64> = vec![3, 67, 5, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn Upper67<Q0, Q1, Q2, Q3, Q4, Q5>(other: Q0, args: Q1, output: Q2, operand_a: Q3, lhs: Q4, count: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = other.into(); let e1: u64 = args.into(); let e2: u64 = output.into(); let e3: u64 = operand_a.into(); let e4: u64 = lhs.into(); let e5: u64 = count.into(); let r: Vec<u64> = vec![3, 67, 6, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn snake_case_name_of_a_method67<Q0, Q1, Q2, Q3, Q4, Q5>(marker: Q0, x2: Q1, a: Q2, second: Q3, bits: Q4, shares: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = marker.into(); let e1: u64 = x2.into(); let e2: u64 = a.into(); let e3: u64 = second.into(); let e4: u64 = bits.into(); let e5: u64 = shares.into(); let r: Vec<u64> = vec![3, 67, 7, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn new67<Q0, Q1, Q2, Q3, Q4, Q5>(x1: Q0, left: Q1, operand_b: Q2, rhs: Q3, rng: Q4, values: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = x1.into(); let e1: u64 = left.into(); let e2: u64 = operand_b.into(); let e3: u64 = rhs.into(); let e4: u64 = rng.into(); let e5: u64 = values.into(); let r: Vec<u64> = vec![3, 67, 8, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn delegate67<Q0, Q1, Q2, Q3, Q4, Q5>(super_: Q0, b: Q1, condition: Q2, secret: Q3, threshold: Q4, P: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = super_.into(); let e1: u64 = b.into(); let e2: u64 = condition.into(); let e3: u64 = secret.into(); let e4: u64 = threshold.into(); let e5: u64 = P.into(); let r: Vec<u64> = vec![3, 67, 9, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn p67<Q0, Q1, Q2, Q3, Q4, Q5>(right: Q0, first: Q1, elements: Q2, protocol: Q3, other: Q4, args: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = right.into(); let e1: u64 = first.into(); let e2: u64 = elements.into(); let e3: u64 = protocol.into(); let e4: u64 = other.into(); let e5: u64 = args.into(); let r: Vec<u64> = vec![3, 67, 10, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn multiply67<Q0, Q1, Q2, Q3, Q4, Q5>(operand_a: Q0, lhs: Q1, count: Q2, index: Q3, marker: Q4, x2: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = operand_a.into(); let e1: u64 = lhs.into(); let e2: u64 = count.into(); let e3: u64 = index.into(); let e4: u64 = marker.into(); let e5: u64 = x2.into(); let r: Vec<u64> = vec![3, 67, 11, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
impl Shape67Marker for Dele {
    type Marker = Delegate;
}
impl Shape67Delegate<'static, u8, Dele> for Dele {
    type Delegate = Worker67<'static, u8, Dele>;
}
impl Shape67Marker for Own {
    type Marker = OwnMarker;
}
impl Shape67Delegate<'static, u8, Own> for Own {
    type Delegate = Decoy67<'static, u8, Own>;
}
impl Shape67Impl<'static, u8, Own, OwnMarker> for Own {
    fn work67<Q0, Q1, Q2, Q3, Q4, Q5>(b: Q0, condition: Q1, secret: Q2, threshold: Q3, P: Q4, x10: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = b.into(); let e1: u64 = condition.into(); let e2: u64 = secret.into(); let e3: u64 = threshold.into(); let e4: u64 = P.into(); let e5: u64 = x10.into(); let r: Vec<u64> = vec![2, 67, 0, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply67<Q0, Q1, Q2, Q3, Q4, Q5>(first: Q0, elements: Q1, protocol: Q2, other: Q3, args: Q4, output: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = first.into(); let e1: u64 = elements.into(); let e2: u64 = protocol.into(); let e3: u64 = other.into(); let e4: u64 = args.into(); let e5: u64 = output.into(); let r: Vec<u64> = vec![2, 67, 1, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn begin67<Q0, Q1, Q2, Q3, Q4, Q5>(lhs: Q0, count: Q1, index: Q2, marker: Q3, x2: Q4, a: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = lhs.into(); let e1: u64 = count.into(); let e2: u64 = index.into(); let e3: u64 = marker.into(); let e4: u64 = x2.into(); let e5: u64 = a.into(); let r: Vec<u64> = vec![2, 67, 2, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn zeta67<Q0, Q1, Q2, Q3, Q4, Q5>(bits: Q0, shares: Q1, z: Q2, x1: Q3, left: Q4, operand_b: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = bits.into(); let e1: u64 = shares.into(); let e2: u64 = z.into(); let e3: u64 = x1.into(); let e4: u64 = left.into(); let e5: u64 = operand_b.into(); let r: Vec<u64> = vec![2, 67, 3, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn reveal67<Q0, Q1, Q2, Q3, Q4, Q5>(rng: Q0, values: Q1, delegate: Q2, super_: Q3, b: Q4, condition: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = rng.into(); let e1: u64 = values.into(); let e2: u64 = delegate.into(); let e3: u64 = super_.into(); let e4: u64 = b.into(); let e5: u64 = condition.into(); let r: Vec<u64> = vec![2, 67, 4, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn a67<Q0, Q1, Q2, Q3, Q4, Q5>(threshold: Q0, P: Q1, x10: Q2, right: Q3, first: Q4, elements: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = threshold.into(); let e1: u64 = P.into(); let e2: u64 = x10.into(); let e3: u64 = right.into(); let e4: u64 = first.into(); let e5: u64 = elements.into(); let r: Vec<u64> = vec![2, 67, 5, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn Upper67<Q0, Q1, Q2, Q3, Q4, Q5>(other: Q0, args: Q1, output: Q2, operand_a: Q3, lhs: Q4, count: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = other.into(); let e1: u64 = args.into(); let e2: u64 = output.into(); let e3: u64 = operand_a.into(); let e4: u64 = lhs.into(); let e5: u64 = count.into(); let r: Vec<u64> = vec![2, 67, 6, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn snake_case_name_of_a_method67<Q0, Q1, Q2, Q3, Q4, Q5>(marker: Q0, x2: Q1, a: Q2, second: Q3, bits: Q4, shares: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = marker.into(); let e1: u64 = x2.into(); let e2: u64 = a.into(); let e3: u64 = second.into(); let e4: u64 = bits.into(); let e5: u64 = shares.into(); let r: Vec<u64> = vec![2, 67, 7, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn new67<Q0, Q1, Q2, Q3, Q4, Q5>(x1: Q0, left: Q1, operand_b: Q2, rhs: Q3, rng: Q4, values: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = x1.into(); let e1: u64 = left.into(); let e2: u64 = operand_b.into(); let e3: u64 = rhs.into(); let e4: u64 = rng.into(); let e5: u64 = values.into(); let r: Vec<u64> = vec![2, 67, 8, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn delegate67<Q0, Q1, Q2, Q3, Q4, Q5>(super_: Q0, b: Q1, condition: Q2, secret: Q3, threshold: Q4, P: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = super_.into(); let e1: u64 = b.into(); let e2: u64 = condition.into(); let e3: u64 = secret.into(); let e4: u64 = threshold.into(); let e5: u64 = P.into(); let r: Vec<u64> = vec![2, 67, 9, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn p67<Q0, Q1, Q2, Q3, Q4, Q5>(right: Q0, first: Q1, elements: Q2, protocol: Q3, other: Q4, args: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = right.into(); let e1: u64 = first.into(); let e2: u64 = elements.into(); let e3: u64 = protocol.into(); let e4: u64 = other.into(); let e5: u64 = args.into(); let r: Vec<u64> = vec![2, 67, 10, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn multiply67<Q0, Q1, Q2, Q3, Q4, Q5>(operand_a: Q0, lhs: Q1, count: Q2, index: Q3, marker: Q4, x2: Q5) -> Result<Vec<u64>, String>
    where
        Q0: Into<u64>, Q1: Into<u64>, Q2: Into<u64>, Q3: Into<u64>, Q4: Into<u64>, Q5: Into<u64>
    {
        let e0: u64 = operand_a.into(); let e1: u64 = lhs.into(); let e2: u64 = count.into(); let e3: u64 = index.into(); let e4: u64 = marker.into(); let e5: u64 = x2.into(); let r: Vec<u64> = vec![2, 67, 11, e0, e1, e2, e3, e4, e5]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
fn call67_0<X: Shape67<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5];
    let want: Vec<u64> = vec![tag, 67, 0, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64];
    let got = <X as Shape67<'static, u8, X>>::work67(v0 as u16, v1 as u16, v2 as u16, v3 as u16, v4 as u16, v5 as u16);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call67_1<X: Shape67<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5];
    let want: Vec<u64> = vec![tag, 67, 1, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64];
    let got = <X as Shape67<'static, u8, X>>::apply67(v0 as u16, v1 as u16, v2 as u16, v3 as u16, v4 as u16, v5 as u16);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call67_2<X: Shape67<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5];
    let want: Vec<u64> = vec![tag, 67, 2, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64];
    let got = <X as Shape67<'static, u8, X>>::begin67(v0 as u16, v1 as u16, v2 as u16, v3 as u16, v4 as u16, v5 as u16);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call67_3<X: Shape67<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5];
    let want: Vec<u64> = vec![tag, 67, 3, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64];
    let got = <X as Shape67<'static, u8, X>>::zeta67(v0 as u16, v1 as u16, v2 as u16, v3 as u16, v4 as u16, v5 as u16);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call67_4<X: Shape67<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5];
    let want: Vec<u64> = vec![tag, 67, 4, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64];
    let got = <X as Shape67<'static, u8, X>>::reveal67(v0 as u16, v1 as u16, v2 as u16, v3 as u16, v4 as u16, v5 as u16);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call67_5<X: Shape67<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5];
    let want: Vec<u64> = vec![tag, 67, 5, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64];
    let got = <X as Shape67<'static, u8, X>>::a67(v0 as u16, v1 as u16, v2 as u16, v3 as u16, v4 as u16, v5 as u16);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call67_6<X: Shape67<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5];
    let want: Vec<u64> = vec![tag, 67, 6, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64];
    let got = <X as Shape67<'static, u8, X>>::Upper67(v0 as u16, v1 as u16, v2 as u16, v3 as u16, v4 as u16, v5 as u16);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call67_7<X: Shape67<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5];
    let want: Vec<u64> = vec![tag, 67, 7, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64];
    let got = <X as Shape67<'static, u8, X>>::snake_case_name_of_a_method67(v0 as u16, v1 as u16, v2 as u16, v3 as u16, v4 as u16, v5 as u16);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call67_8<X: Shape67<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5];
    let want: Vec<u64> = vec![tag, 67, 8, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64];
    let got = <X as Shape67<'static, u8, X>>::new67(v0 as u16, v1 as u16, v2 as u16, v3 as u16, v4 as u16, v5 as u16);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call67_9<X: Shape67<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5];
    let want: Vec<u64> = vec![tag, 67, 9, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64];
    let got = <X as Shape67<'static, u8, X>>::delegate67(v0 as u16, v1 as u16, v2 as u16, v3 as u16, v4 as u16, v5 as u16);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call67_10<X: Shape67<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5];
    let want: Vec<u64> = vec![tag, 67, 10, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64];
    let got = <X as Shape67<'static, u8, X>>::p67(v0 as u16, v1 as u16, v2 as u16, v3 as u16, v4 as u16, v5 as u16);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call67_11<X: Shape67<'static, u8, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5];
    let want: Vec<u64> = vec![tag, 67, 11, v0 as u64, v1 as u64, v2 as u64, v3 as u64, v4 as u64, v5 as u64];
    let got = <X as Shape67<'static, u8, X>>::multiply67(v0 as u16, v1 as u16, v2 as u16, v3 as u16, v4 as u16, v5 as u16);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
/// slice, slice, slice, slice, slice, slice, slice, slice
#[delegatable_protocol]
trait Shape68<T, P, S>
where
    P: Log,
    S: IntoIterator<Item = T>,
    T: Into<u64>
{
    fn work68(rng0: &[u8], protocol1: &[u8], lhs2: &[u8], rhs3: &[u8], x4: &[u8], value_5: &[u8], item6: &[u8], _unused7: &[u8]) -> Result<Vec<u64>, String>;
    /// documented
    fn apply68(protocol0: &[u8], lhs1: &[u8], rhs2: &[u8], x3: &[u8], value_4: &[u8], item5: &[u8], _unused6: &[u8], self_7: &[u8]) -> Result<Vec<u64>, String>;
}
pub struct Worker68<T, P, S>(PhantomData<T>, PhantomData<P>, PhantomData<S>);
impl<T, P, S> Shape68<T, P, S> for Worker68<T, P, S>
where
    P: Log,
    S: IntoIterator<Item = T>,
    T: Into<u64>
{
    fn work68(rng0: &[u8], protocol1: &[u8], lhs2: &[u8], rhs3: &[u8], x4: &[u8], value_5: &[u8], item6: &[u8], _unused7: &[u8]) -> Result<Vec<u64>, String>
    {
        let e0: u64 = rng0.iter().fold(rng0.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = protocol1.iter().fold(protocol1.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = lhs2.iter().fold(lhs2.len() as u64, |a, x| a * 256 + *x as u64); let e3: u64 = rhs3.iter().fold(rhs3.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = x4.iter().fold(x4.len() as u64, |a, x| a * 256 + *x as u64); let e5: u64 = value_5.iter().fold(value_5.len() as u64, |a, x| a * 256 + *x as u64); let e6: u64 = item6.iter().fold(item6.len() as u64, |a, x| a * 256 + *x as u64); let e7: u64 = _unused7.iter().fold(_unused7.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![1, 68, 0, e0, e1, e2, e3, e4, e5, e6, e7]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply68(protocol0: &[u8], lhs1: &[u8], rhs2: &[u8], x3: &[u8], value_4: &[u8], item5: &[u8], _unused6: &[u8], self_7: &[u8]) -> Result<Vec<u64>, String>
    {
        let e0: u64 = protocol0.iter().fold(protocol0.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = lhs1.iter().fold(lhs1.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = rhs2.iter().fold(rhs2.len() as u64, |a, x| a * 256 + *x as u64); let e3: u64 = x3.iter().fold(x3.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = value_4.iter().fold(value_4.len() as u64, |a, x| a * 256 + *x as u64); let e5: u64 = item5.iter().fold(item5.len() as u64, |a, x| a * 256 + *x as u64); let e6: u64 = _unused6.iter().fold(_unused6.len() as u64, |a, x| a * 256 + *x as u64); let e7: u64 = self_7.iter().fold(self_7.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![1, 68, 1, e0, e1, e2, e3, e4, e5, e6, e7]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
pub struct Decoy68<T, P, S>(PhantomData<T>, PhantomData<P>, PhantomData<S>);
impl<T, P, S> Shape68<T, P, S> for Decoy68<T, P, S>
where
    P: Log,
    S: IntoIterator<Item = T>,
    T: Into<u64>
{
    fn work68(rng0: &[u8], protocol1: &[u8], lhs2: &[u8], rhs3: &[u8], x4: &[u8], value_5: &[u8], item6: &[u8], _unused7: &[u8]) -> Result<Vec<u64>, String>
    {
        let e0: u64 = rng0.iter().fold(rng0.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = protocol1.iter().fold(protocol1.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = lhs2.iter().fold(lhs2.len() as u64, |a, x| a * 256 + *x as u64); let e3: u64 = rhs3.iter().fold(rhs3.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = x4.iter().fold(x4.len() as u64, |a, x| a * 256 + *x as u64); let e5: u64 = value_5.iter().fold(value_5.len() as u64, |a, x| a * 256 + *x as u64); let e6: u64 = item6.iter().fold(item6.len() as u64, |a, x| a * 256 + *x as u64); let e7: u64 = _unused7.iter().fold(_unused7.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![3, 68, 0, e0, e1, e2, e3, e4, e5, e6, e7]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply68(protocol0: &[u8], lhs1: &[u8], rhs2: &[u8], x3: &[u8], value_4: &[u8], item5: &[u8], _unused6: &[u8], self_7: &[u8]) -> Result<Vec<u64>, String>
    {
        let e0: u64 = protocol0.iter().fold(protocol0.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = lhs1.iter().fold(lhs1.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = rhs2.iter().fold(rhs2.len() as u64, |a, x| a * 256 + *x as u64); let e3: u64 = x3.iter().fold(x3.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = value_4.iter().fold(value_4.len() as u64, |a, x| a * 256 + *x as u64); let e5: u64 = item5.iter().fold(item5.len() as u64, |a, x| a * 256 + *x as u64); let e6: u64 = _unused6.iter().fold(_unused6.len() as u64, |a, x| a * 256 + *x as u64); let e7: u64 = self_7.iter().fold(self_7.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![3, 68, 1, e0, e1, e2, e3, e4, e5, e6, e7]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
impl Shape68Marker for Dele {
    type Marker = Delegate;
}
impl Shape68Delegate<u8, Dele, Vec<u8>> for Dele {
    type Delegate = Worker68<u8, Dele, Vec<u8>>;
}
impl Shape68Marker for Own {
    type Marker = OwnMarker;
}
impl Shape68Delegate<u8, Own, Vec<u8>> for Own {
    type Delegate = Decoy68<u8, Own, Vec<u8>>;
}
impl Shape68Impl<u8, Own, Vec<u8>, OwnMarker> for Own {
    fn work68(rng0: &[u8], protocol1: &[u8], lhs2: &[u8], rhs3: &[u8], x4: &[u8], value_5: &[u8], item6: &[u8], _unused7: &[u8]) -> Result<Vec<u64>, String>
    {
        let e0: u64 = rng0.iter().fold(rng0.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = protocol1.iter().fold(protocol1.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = lhs2.iter().fold(lhs2.len() as u64, |a, x| a * 256 + *x as u64); let e3: u64 = rhs3.iter().fold(rhs3.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = x4.iter().fold(x4.len() as u64, |a, x| a * 256 + *x as u64); let e5: u64 = value_5.iter().fold(value_5.len() as u64, |a, x| a * 256 + *x as u64); let e6: u64 = item6.iter().fold(item6.len() as u64, |a, x| a * 256 + *x as u64); let e7: u64 = _unused7.iter().fold(_unused7.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![2, 68, 0, e0, e1, e2, e3, e4, e5, e6, e7]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
    fn apply68(protocol0: &[u8], lhs1: &[u8], rhs2: &[u8], x3: &[u8], value_4: &[u8], item5: &[u8], _unused6: &[u8], self_7: &[u8]) -> Result<Vec<u64>, String>
    {
        let e0: u64 = protocol0.iter().fold(protocol0.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = lhs1.iter().fold(lhs1.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = rhs2.iter().fold(rhs2.len() as u64, |a, x| a * 256 + *x as u64); let e3: u64 = x3.iter().fold(x3.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = value_4.iter().fold(value_4.len() as u64, |a, x| a * 256 + *x as u64); let e5: u64 = item5.iter().fold(item5.len() as u64, |a, x| a * 256 + *x as u64); let e6: u64 = _unused6.iter().fold(_unused6.len() as u64, |a, x| a * 256 + *x as u64); let e7: u64 = self_7.iter().fold(self_7.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![2, 68, 1, e0, e1, e2, e3, e4, e5, e6, e7]; if r.last() == Some(&1) { Err(format!("{:?}", r)) } else { Ok(r) }
    }
}
fn call68_0<X: Shape68<u8, X, Vec<u8>> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5]; let mut v6 = v[6]; let mut v7 = v[7];
    let want: Vec<u64> = vec![tag, 68, 0, (2 * 256 + v0 as u64) * 256 + v0 as u64 + 1, (2 * 256 + v1 as u64) * 256 + v1 as u64 + 1, (2 * 256 + v2 as u64) * 256 + v2 as u64 + 1, (2 * 256 + v3 as u64) * 256 + v3 as u64 + 1, (2 * 256 + v4 as u64) * 256 + v4 as u64 + 1, (2 * 256 + v5 as u64) * 256 + v5 as u64 + 1, (2 * 256 + v6 as u64) * 256 + v6 as u64 + 1, (2 * 256 + v7 as u64) * 256 + v7 as u64 + 1];
    let got = <X as Shape68<u8, X, Vec<u8>>>::work68(&[v0, v0 + 1][..], &[v1, v1 + 1][..], &[v2, v2 + 1][..], &[v3, v3 + 1][..], &[v4, v4 + 1][..], &[v5, v5 + 1][..], &[v6, v6 + 1][..], &[v7, v7 + 1][..]);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
fn call68_1<X: Shape68<u8, X, Vec<u8>> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5]; let mut v6 = v[6]; let mut v7 = v[7];
    let want: Vec<u64> = vec![tag, 68, 1, (2 * 256 + v0 as u64) * 256 + v0 as u64 + 1, (2 * 256 + v1 as u64) * 256 + v1 as u64 + 1, (2 * 256 + v2 as u64) * 256 + v2 as u64 + 1, (2 * 256 + v3 as u64) * 256 + v3 as u64 + 1, (2 * 256 + v4 as u64) * 256 + v4 as u64 + 1, (2 * 256 + v5 as u64) * 256 + v5 as u64 + 1, (2 * 256 + v6 as u64) * 256 + v6 as u64 + 1, (2 * 256 + v7 as u64) * 256 + v7 as u64 + 1];
    let got = <X as Shape68<u8, X, Vec<u8>>>::apply68(&[v0, v0 + 1][..], &[v1, v1 + 1][..], &[v2, v2 + 1][..], &[v3, v3 + 1][..], &[v4, v4 + 1][..], &[v5, v5 + 1][..], &[v6, v6 + 1][..], &[v7, v7 + 1][..]);
    let expect = if want.last() == Some(&1) { Err(format!("{:?}", want)) } else { Ok(want.clone()) };
    super::same("the result", &got, &expect)?;
    Ok(())
}
/// slice, slice, slice, slice, slice, slice, slice, slice
#[delegatable_protocol]
pub(crate) trait Shape69<Marked, Other, P>
where
    P: Log,
    Marked: Copy,
    Other: Copy,
{
    fn work69(operand_b: &[u8], rhs: &[u8], rng: &[u8], values: &[u8], delegate: &[u8], super_: &[u8], b: &[u8], condition: &[u8],);
    /// documented
    fn apply69(condition: &[u8], secret: &[u8], threshold: &[u8], P: &[u8], x10: &[u8], right: &[u8], first: &[u8], elements: &[u8],);
    fn begin69(elements: &[u8], protocol: &[u8], other: &[u8], args: &[u8], output: &[u8], operand_a: &[u8], lhs: &[u8], count: &[u8],);
}
pub struct Worker69<Marked, Other, P>(PhantomData<Marked>, PhantomData<Other>, PhantomData<P>);
impl<Marked, Other, P> Shape69<Marked, Other, P> for Worker69<Marked, Other, P>
where
    P: Log,
    Marked: Copy,
    Other: Copy,
{
    fn work69(operand_b: &[u8], rhs: &[u8], rng: &[u8], values: &[u8], delegate: &[u8], super_: &[u8], b: &[u8], condition: &[u8],)
    {
        let e0: u64 = operand_b.iter().fold(operand_b.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = rhs.iter().fold(rhs.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = rng.iter().fold(rng.len() as u64, |a, x| a * 256 + *x as u64); let e3: u64 = values.iter().fold(values.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = delegate.iter().fold(delegate.len() as u64, |a, x| a * 256 + *x as u64); let e5: u64 = super_.iter().fold(super_.len() as u64, |a, x| a * 256 + *x as u64); let e6: u64 = b.iter().fold(b.len() as u64, |a, x| a * 256 + *x as u64); let e7: u64 = condition.iter().fold(condition.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![1, 69, 0, e0, e1, e2, e3, e4, e5, e6, e7]; super::note(r);
    }
    fn apply69(condition: &[u8], secret: &[u8], threshold: &[u8], P: &[u8], x10: &[u8], right: &[u8], first: &[u8], elements: &[u8],)
    {
        let e0: u64 = condition.iter().fold(condition.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = secret.iter().fold(secret.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = threshold.iter().fold(threshold.len() as u64, |a, x| a * 256 + *x as u64); let e3: u64 = P.iter().fold(P.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = x10.iter().fold(x10.len() as u64, |a, x| a * 256 + *x as u64); let e5: u64 = right.iter().fold(right.len() as u64, |a, x| a * 256 + *x as u64); let e6: u64 = first.iter().fold(first.len() as u64, |a, x| a * 256 + *x as u64); let e7: u64 = elements.iter().fold(elements.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![1, 69, 1, e0, e1, e2, e3, e4, e5, e6, e7]; super::note(r);
    }
    fn begin69(elements: &[u8], protocol: &[u8], other: &[u8], args: &[u8], output: &[u8], operand_a: &[u8], lhs: &[u8], count: &[u8],)
    {
        let e0: u64 = elements.iter().fold(elements.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = protocol.iter().fold(protocol.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = other.iter().fold(other.len() as u64, |a, x| a * 256 + *x as u64); let e3: u64 = args.iter().fold(args.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = output.iter().fold(output.len() as u64, |a, x| a * 256 + *x as u64); let e5: u64 = operand_a.iter().fold(operand_a.len() as u64, |a, x| a * 256 + *x as u64); let e6: u64 = lhs.iter().fold(lhs.len() as u64, |a, x| a * 256 + *x as u64); let e7: u64 = count.iter().fold(count.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![1, 69, 2, e0, e1, e2, e3, e4, e5, e6, e7]; super::note(r);
    }
}
pub struct Decoy69<Marked, Other, P>(PhantomData<Marked>, PhantomData<Other>, PhantomData<P>);
impl<Marked, Other, P> Shape69<Marked, Other, P> for Decoy69<Marked, Other, P>
where
    P: Log,
    Marked: Copy,
    Other: Copy,
{
    fn work69(operand_b: &[u8], rhs: &[u8], rng: &[u8], values: &[u8], delegate: &[u8], super_: &[u8], b: &[u8], condition: &[u8],)
    {
        let e0: u64 = operand_b.iter().fold(operand_b.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = rhs.iter().fold(rhs.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = rng.iter().fold(rng.len() as u64, |a, x| a * 256 + *x as u64); let e3: u64 = values.iter().fold(values.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = delegate.iter().fold(delegate.len() as u64, |a, x| a * 256 + *x as u64); let e5: u64 = super_.iter().fold(super_.len() as u64, |a, x| a * 256 + *x as u64); let e6: u64 = b.iter().fold(b.len() as u64, |a, x| a * 256 + *x as u64); let e7: u64 = condition.iter().fold(condition.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![3, 69, 0, e0, e1, e2, e3, e4, e5, e6, e7]; super::note(r);
    }
    fn apply69(condition: &[u8], secret: &[u8], threshold: &[u8], P: &[u8], x10: &[u8], right: &[u8], first: &[u8], elements: &[u8],)
    {
        let e0: u64 = condition.iter().fold(condition.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = secret.iter().fold(secret.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = threshold.iter().fold(threshold.len() as u64, |a, x| a * 256 + *x as u64); let e3: u64 = P.iter().fold(P.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = x10.iter().fold(x10.len() as u64, |a, x| a * 256 + *x as u64); let e5: u64 = right.iter().fold(right.len() as u64, |a, x| a * 256 + *x as u64); let e6: u64 = first.iter().fold(first.len() as u64, |a, x| a * 256 + *x as u64); let e7: u64 = elements.iter().fold(elements.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![3, 69, 1, e0, e1, e2, e3, e4, e5, e6, e7]; super::note(r);
    }
    fn begin69(elements: &[u8], protocol: &[u8], other: &[u8], args: &[u8], output: &[u8], operand_a: &[u8], lhs: &[u8], count: &[u8],)
    {
        let e0: u64 = elements.iter().fold(elements.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = protocol.iter().fold(protocol.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = other.iter().fold(other.len() as u64, |a, x| a * 256 + *x as u64); let e3: u64 = args.iter().fold(args.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = output.iter().fold(output.len() as u64, |a, x| a * 256 + *x as u64); let e5: u64 = operand_a.iter().fold(operand_a.len() as u64, |a, x| a * 256 + *x as u64); let e6: u64 = lhs.iter().fold(lhs.len() as u64, |a, x| a * 256 + *x as u64); let e7: u64 = count.iter().fold(count.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![3, 69, 2, e0, e1, e2, e3, e4, e5, e6, e7]; super::note(r);
    }
}
impl Shape69Marker for Dele {
    type Marker = Delegate;
}
impl Shape69Delegate<u8, u16, Dele> for Dele {
    type Delegate = Worker69<u8, u16, Dele>;
}
impl Shape69Marker for Own {
    type Marker = OwnMarker;
}
impl Shape69Delegate<u8, u16, Own> for Own {
    type Delegate = Decoy69<u8, u16, Own>;
}
impl Shape69Impl<u8, u16, Own, OwnMarker> for Own {
    fn work69(operand_b: &[u8], rhs: &[u8], rng: &[u8], values: &[u8], delegate: &[u8], super_: &[u8], b: &[u8], condition: &[u8],)
    {
        let e0: u64 = operand_b.iter().fold(operand_b.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = rhs.iter().fold(rhs.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = rng.iter().fold(rng.len() as u64, |a, x| a * 256 + *x as u64); let e3: u64 = values.iter().fold(values.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = delegate.iter().fold(delegate.len() as u64, |a, x| a * 256 + *x as u64); let e5: u64 = super_.iter().fold(super_.len() as u64, |a, x| a * 256 + *x as u64); let e6: u64 = b.iter().fold(b.len() as u64, |a, x| a * 256 + *x as u64); let e7: u64 = condition.iter().fold(condition.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![2, 69, 0, e0, e1, e2, e3, e4, e5, e6, e7]; super::note(r);
    }
    fn apply69(condition: &[u8], secret: &[u8], threshold: &[u8], P: &[u8], x10: &[u8], right: &[u8], first: &[u8], elements: &[u8],)
    {
        let e0: u64 = condition.iter().fold(condition.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = secret.iter().fold(secret.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = threshold.iter().fold(threshold.len() as u64, |a, x| a * 256 + *x as u64); let e3: u64 = P.iter().fold(P.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = x10.iter().fold(x10.len() as u64, |a, x| a * 256 + *x as u64); let e5: u64 = right.iter().fold(right.len() as u64, |a, x| a * 256 + *x as u64); let e6: u64 = first.iter().fold(first.len() as u64, |a, x| a * 256 + *x as u64); let e7: u64 = elements.iter().fold(elements.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![2, 69, 1, e0, e1, e2, e3, e4, e5, e6, e7]; super::note(r);
    }
    fn begin69(elements: &[u8], protocol: &[u8], other: &[u8], args: &[u8], output: &[u8], operand_a: &[u8], lhs: &[u8], count: &[u8],)
    {
        let e0: u64 = elements.iter().fold(elements.len() as u64, |a, x| a * 256 + *x as u64); let e1: u64 = protocol.iter().fold(protocol.len() as u64, |a, x| a * 256 + *x as u64); let e2: u64 = other.iter().fold(other.len() as u64, |a, x| a * 256 + *x as u64); let e3: u64 = args.iter().fold(args.len() as u64, |a, x| a * 256 + *x as u64); let e4: u64 = output.iter().fold(output.len() as u64, |a, x| a * 256 + *x as u64); let e5: u64 = operand_a.iter().fold(operand_a.len() as u64, |a, x| a * 256 + *x as u64); let e6: u64 = lhs.iter().fold(lhs.len() as u64, |a, x| a * 256 + *x as u64); let e7: u64 = count.iter().fold(count.len() as u64, |a, x| a * 256 + *x as u64); let r: Vec<u64> = vec![2, 69, 2, e0, e1, e2, e3, e4, e5, e6, e7]; super::note(r);
    }
}
fn call69_0<X: Shape69<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5]; let mut v6 = v[6]; let mut v7 = v[7];
    let want: Vec<u64> = vec![tag, 69, 0, (2 * 256 + v0 as u64) * 256 + v0 as u64 + 1, (2 * 256 + v1 as u64) * 256 + v1 as u64 + 1, (2 * 256 + v2 as u64) * 256 + v2 as u64 + 1, (2 * 256 + v3 as u64) * 256 + v3 as u64 + 1, (2 * 256 + v4 as u64) * 256 + v4 as u64 + 1, (2 * 256 + v5 as u64) * 256 + v5 as u64 + 1, (2 * 256 + v6 as u64) * 256 + v6 as u64 + 1, (2 * 256 + v7 as u64) * 256 + v7 as u64 + 1];
    let got: () = <X as Shape69<u8, u16, X>>::work69(&[v0, v0 + 1][..], &[v1, v1 + 1][..], &[v2, v2 + 1][..], &[v3, v3 + 1][..], &[v4, v4 + 1][..], &[v5, v5 + 1][..], &[v6, v6 + 1][..], &[v7, v7 + 1][..]); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call69_1<X: Shape69<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5]; let mut v6 = v[6]; let mut v7 = v[7];
    let want: Vec<u64> = vec![tag, 69, 1, (2 * 256 + v0 as u64) * 256 + v0 as u64 + 1, (2 * 256 + v1 as u64) * 256 + v1 as u64 + 1, (2 * 256 + v2 as u64) * 256 + v2 as u64 + 1, (2 * 256 + v3 as u64) * 256 + v3 as u64 + 1, (2 * 256 + v4 as u64) * 256 + v4 as u64 + 1, (2 * 256 + v5 as u64) * 256 + v5 as u64 + 1, (2 * 256 + v6 as u64) * 256 + v6 as u64 + 1, (2 * 256 + v7 as u64) * 256 + v7 as u64 + 1];
    let got: () = <X as Shape69<u8, u16, X>>::apply69(&[v0, v0 + 1][..], &[v1, v1 + 1][..], &[v2, v2 + 1][..], &[v3, v3 + 1][..], &[v4, v4 + 1][..], &[v5, v5 + 1][..], &[v6, v6 + 1][..], &[v7, v7 + 1][..]); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
fn call69_2<X: Shape69<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0]; let mut v1 = v[1]; let mut v2 = v[2]; let mut v3 = v[3]; let mut v4 = v[4]; let mut v5 = v[5]; let mut v6 = v[6]; let mut v7 = v[7];
    let want: Vec<u64> = vec![tag, 69, 2, (2 * 256 + v0 as u64) * 256 + v0 as u64 + 1, (2 * 256 + v1 as u64) * 256 + v1 as u64 + 1, (2 * 256 + v2 as u64) * 256 + v2 as u64 + 1, (2 * 256 + v3 as u64) * 256 + v3 as u64 + 1, (2 * 256 + v4 as u64) * 256 + v4 as u64 + 1, (2 * 256 + v5 as u64) * 256 + v5 as u64 + 1, (2 * 256 + v6 as u64) * 256 + v6 as u64 + 1, (2 * 256 + v7 as u64) * 256 + v7 as u64 + 1];
    let got: () = <X as Shape69<u8, u16, X>>::begin69(&[v0, v0 + 1][..], &[v1, v1 + 1][..], &[v2, v2 + 1][..], &[v3, v3 + 1][..], &[v4, v4 + 1][..], &[v5, v5 + 1][..], &[v6, v6 + 1][..], &[v7, v7 + 1][..]); let got = super::noted();
    super::same("the result", &got, &want)?;
    Ok(())
}
/// u8, prot
#[delegatable_protocol]
pub(crate) trait Shape70<A, B, C, D, E, F, G, P>
where
    P: Log
{
    fn work70(rng0: u8, protocol1: &mut P);
    /// documented
    fn apply70(protocol0: &mut P, lhs1: u8);
    fn begin70(lhs0: u8, rhs1: &mut P);
}
pub struct Worker70<A, B, C, D, E, F, G, P>(PhantomData<A>, PhantomData<B>, PhantomData<C>, PhantomData<D>, PhantomData<E>, PhantomData<F>, PhantomData<G>, PhantomData<P>);
impl<A, B, C, D, E, F, G, P> Shape70<A, B, C, D, E, F, G, P> for Worker70<A, B, C, D, E, F, G, P>
where
    P: Log
{
    fn work70(rng0: u8, protocol1: &mut P)
    {
        let e0: u64 = rng0 as u64; let r: Vec<u64> = vec![1, 70, 0, e0]; protocol1.log(r.clone()); super::note(r);
    }
    fn apply70(protocol0: &mut P, lhs1: u8)
    {
        let e1: u64 = lhs1 as u64; let r: Vec<u64> = vec![1, 70, 1, e1]; protocol0.log(r.clone()); super::note(r);
    }
    fn begin70(lhs0: u8, rhs1: &mut P)
    {
        let e0: u64 = lhs0 as u64; let r: Vec<u64> = vec![1, 70, 2, e0]; rhs1.log(r.clone()); super::note(r);
    }
}
pub struct Decoy70<A, B, C, D, E, F, G, P>(PhantomData<A>, PhantomData<B>, PhantomData<C>, PhantomData<D>, PhantomData<E>, PhantomData<F>, PhantomData<G>, PhantomData<P>);
impl<A, B, C, D, E, F, G, P> Shape70<A, B, C, D, E, F, G, P> for Decoy70<A, B, C, D, E, F, G, P>
where
    P: Log
{
    fn work70(rng0: u8, protocol1: &mut P)
    {
        let e0: u64 = rng0 as u64; let r: Vec<u64> = vec![3, 70, 0, e0]; protocol1.log(r.clone()); super::note(r);
    }
    fn apply70(protocol0: &mut P, lhs1: u8)
    {
        let e1: u64 = lhs1 as u64; let r: Vec<u64> = vec![3, 70, 1, e1]; protocol0.log(r.clone()); super::note(r);
    }
    fn begin70(lhs0: u8, rhs1: &mut P)
    {
        let e0: u64 = lhs0 as u64; let r: Vec<u64> = vec![3, 70, 2, e0]; rhs1.log(r.clone()); super::note(r);
    }
}
impl Shape70Marker for Dele {
    type Marker = Delegate;
}
impl Shape70Delegate<u8, u16, u32, u64, i8, i16, i32, Dele> for Dele {
    type Delegate = Worker70<u8, u16, u32, u64, i8, i16, i32, Dele>;
}
impl Shape70Marker for Own {
    type Marker = OwnMarker;
}
impl Shape70Delegate<u8, u16, u32, u64, i8, i16, i32, Own> for Own {
    type Delegate = Decoy70<u8, u16, u32, u64, i8, i16, i32, Own>;
}
impl Shape70Impl<u8, u16, u32, u64, i8, i16, i32, Own, OwnMarker> for Own {
    fn work70(rng0: u8, protocol1: &mut Own)
    {
        let e0: u64 = rng0 as u64; let r: Vec<u64> = vec![2, 70, 0, e0]; protocol1.log(r.clone()); super::note(r);
    }
    fn apply70(protocol0: &mut Own, lhs1: u8)
    {
        let e1: u64 = lhs1 as u64; let r: Vec<u64> = vec![2, 70, 1, e1]; protocol0.log(r.clone()); super::note(r);
    }
    fn begin70(lhs0: u8, rhs1: &mut Own)
    {
        let e0: u64 = lhs0 as u64; let r: Vec<u64> = vec![2, 70, 2, e0]; rhs1.log(r.clone()); super::note(r);
    }
}
fn call70_0<X: Shape70<u8, u16, u32, u64, i8, i16, i32, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0];
    let want: Vec<u64> = vec![tag, 70, 0, v0 as u64];
    let mut protocol = X::fresh();
    let got: () = <X as Shape70<u8, u16, u32, u64, i8, i16, i32, X>>::work70(v0, &mut protocol); let got = super::noted();
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call70_1<X: Shape70<u8, u16, u32, u64, i8, i16, i32, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v1 = v[0];
    let want: Vec<u64> = vec![tag, 70, 1, v1 as u64];
    let mut protocol = X::fresh();
    let got: () = <X as Shape70<u8, u16, u32, u64, i8, i16, i32, X>>::apply70(&mut protocol, v1); let got = super::noted();
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call70_2<X: Shape70<u8, u16, u32, u64, i8, i16, i32, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0];
    let want: Vec<u64> = vec![tag, 70, 2, v0 as u64];
    let mut protocol = X::fresh();
    let got: () = <X as Shape70<u8, u16, u32, u64, i8, i16, i32, X>>::begin70(v0, &mut protocol); let got = super::noted();
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
/// u8, prot
#[delegatable_protocol]
pub trait Shape71<T, S, P,>
where
    P: Log + Send,
    T: Send,
    S: Send
{
    fn work71(second: u8, bits: &mut P,) -> Vec<u64>;
    fn offset() -> u64 {
        1000
    }
    fn twice71() -> u64 {
        Self::offset() * 2
    }
}
pub struct Worker71<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape71<T, S, P> for Worker71<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send
{
    fn work71(second: u8, bits: &mut P,) -> Vec<u64>
    {
        let e0: u64 = second as u64; let r: Vec<u64> = vec![1, 71, 0, e0]; bits.log(r.clone()); r
    }
}
pub struct Decoy71<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape71<T, S, P> for Decoy71<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send
{
    fn work71(second: u8, bits: &mut P,) -> Vec<u64>
    {
        let e0: u64 = second as u64; let r: Vec<u64> = vec![3, 71, 0, e0]; bits.log(r.clone()); r
    }
}
impl Shape71Marker for Dele {
    type Marker = Delegate;
}
impl Shape71Delegate<u8, u16, Dele> for Dele {
    type Delegate = Worker71<u8, u16, Dele>;
}
impl Shape71Marker for Own {
    type Marker = OwnMarker;
}
impl Shape71Delegate<u8, u16, Own> for Own {
    type Delegate = Decoy71<u8, u16, Own>;
}
impl Shape71Impl<u8, u16, Own, OwnMarker> for Own {
    fn work71(second: u8, bits: &mut Own,) -> Vec<u64>
    {
        let e0: u64 = second as u64; let r: Vec<u64> = vec![2, 71, 0, e0]; bits.log(r.clone()); r
    }
}
fn call71_0<X: Shape71<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    let mut v0 = v[0];
    let want: Vec<u64> = vec![tag, 71, 0, v0 as u64];
    let mut protocol = X::fresh();
    let got = <X as Shape71<u8, u16, X>>::work71(v0, &mut protocol);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn default71<X: Shape71<u8, u16, X>+ Log + Send + Sync + 'static>(_: &[u8], _: u64) -> Outcome
{
    super::same("a default method", &<X as Shape71<u8, u16, X>>::twice71(), &2000)
}
/// prot
#[delegatable_protocol]
pub trait Shape72<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send,
{
    fn work72(rng0: &mut P,) -> Vec<u64>;
    /// documented
    fn apply72(protocol0: &mut P,) -> Vec<u64>;
    fn begin72(lhs0: &mut P,) -> Vec<u64>;
    /// documented
    fn zeta72(rhs0: &mut P,) -> Vec<u64>;
    fn reveal72(x0: &mut P,) -> Vec<u64>;
    /// documented
    fn a72(value_0: &mut P,) -> Vec<u64>;
    fn Upper72(item0: &mut P,) -> Vec<u64>;
    /// documented
    fn snake_case_name_of_a_method72(_unused0: &mut P,) -> Vec<u64>;
    fn new72(self_0: &mut P,) -> Vec<u64>;
    /// documented
    fn delegate72(r#type0: &mut P,) -> Vec<u64>;
    fn p72(rng0: &mut P,) -> Vec<u64>;
    /// documented
    fn multiply72(protocol0: &mut P,) -> Vec<u64>;
    fn offset() -> u64 {
        1000
    }
    fn twice72() -> u64 {
        Self::offset() * 2
    }
}
pub struct Worker72<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape72<T, S, P> for Worker72<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send,
{
    fn work72(rng0: &mut P,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![1, 72, 0]; rng0.log(r.clone()); r
    }
    fn apply72(protocol0: &mut P,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![1, 72, 1]; protocol0.log(r.clone()); r
    }
    fn begin72(lhs0: &mut P,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![1, 72, 2]; lhs0.log(r.clone()); r
    }
    fn zeta72(rhs0: &mut P,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![1, 72, 3]; rhs0.log(r.clone()); r
    }
    fn reveal72(x0: &mut P,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![1, 72, 4]; x0.log(r.clone()); r
    }
    fn a72(value_0: &mut P,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![1, 72, 5]; value_0.log(r.clone()); r
    }
    fn Upper72(item0: &mut P,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![1, 72, 6]; item0.log(r.clone()); r
    }
    fn snake_case_name_of_a_method72(_unused0: &mut P,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![1, 72, 7]; _unused0.log(r.clone()); r
    }
    fn new72(self_0: &mut P,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![1, 72, 8]; self_0.log(r.clone()); r
    }
    fn delegate72(r#type0: &mut P,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![1, 72, 9]; r#type0.log(r.clone()); r
    }
    fn p72(rng0: &mut P,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![1, 72, 10]; rng0.log(r.clone()); r
    }
    fn multiply72(protocol0: &mut P,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![1, 72, 11]; protocol0.log(r.clone()); r
    }
}
pub struct Decoy72<T, S, P>(PhantomData<T>, PhantomData<S>, PhantomData<P>);
impl<T, S, P> Shape72<T, S, P> for Decoy72<T, S, P>
where
    P: Log + Send,
    T: Send,
    S: Send,
{
    fn work72(rng0: &mut P,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![3, 72, 0]; rng0.log(r.clone()); r
    }
    fn apply72(protocol0: &mut P,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![3, 72, 1]; protocol0.log(r.clone()); r
    }
    fn begin72(lhs0: &mut P,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![3, 72, 2]; lhs0.log(r.clone()); r
    }
    fn zeta72(rhs0: &mut P,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![3, 72, 3]; rhs0.log(r.clone()); r
    }
    fn reveal72(x0: &mut P,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![3, 72, 4]; x0.log(r.clone()); r
    }
    fn a72(value_0: &mut P,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![3, 72, 5]; value_0.log(r.clone()); r
    }
    fn Upper72(item0: &mut P,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![3, 72, 6]; item0.log(r.clone()); r
    }
    fn snake_case_name_of_a_method72(_unused0: &mut P,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![3, 72, 7]; _unused0.log(r.clone()); r
    }
    fn new72(self_0: &mut P,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![3, 72, 8]; self_0.log(r.clone()); r
    }
    fn delegate72(r#type0: &mut P,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![3, 72, 9]; r#type0.log(r.clone()); r
    }
    fn p72(rng0: &mut P,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![3, 72, 10]; rng0.log(r.clone()); r
    }
    fn multiply72(protocol0: &mut P,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![3, 72, 11]; protocol0.log(r.clone()); r
    }
}
impl Shape72Marker for Dele {
    type Marker = Delegate;
}
impl Shape72Delegate<u8, u16, Dele> for Dele {
    type Delegate = Worker72<u8, u16, Dele>;
}
impl Shape72Marker for Own {
    type Marker = OwnMarker;
}
impl Shape72Delegate<u8, u16, Own> for Own {
    type Delegate = Decoy72<u8, u16, Own>;
}
impl Shape72Impl<u8, u16, Own, OwnMarker> for Own {
    fn work72(rng0: &mut Own,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![2, 72, 0]; rng0.log(r.clone()); r
    }
    fn apply72(protocol0: &mut Own,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![2, 72, 1]; protocol0.log(r.clone()); r
    }
    fn begin72(lhs0: &mut Own,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![2, 72, 2]; lhs0.log(r.clone()); r
    }
    fn zeta72(rhs0: &mut Own,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![2, 72, 3]; rhs0.log(r.clone()); r
    }
    fn reveal72(x0: &mut Own,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![2, 72, 4]; x0.log(r.clone()); r
    }
    fn a72(value_0: &mut Own,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![2, 72, 5]; value_0.log(r.clone()); r
    }
    fn Upper72(item0: &mut Own,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![2, 72, 6]; item0.log(r.clone()); r
    }
    fn snake_case_name_of_a_method72(_unused0: &mut Own,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![2, 72, 7]; _unused0.log(r.clone()); r
    }
    fn new72(self_0: &mut Own,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![2, 72, 8]; self_0.log(r.clone()); r
    }
    fn delegate72(r#type0: &mut Own,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![2, 72, 9]; r#type0.log(r.clone()); r
    }
    fn p72(rng0: &mut Own,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![2, 72, 10]; rng0.log(r.clone()); r
    }
    fn multiply72(protocol0: &mut Own,) -> Vec<u64>
    {
        let r: Vec<u64> = vec![2, 72, 11]; protocol0.log(r.clone()); r
    }
}
fn call72_0<X: Shape72<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 72, 0];
    let mut protocol = X::fresh();
    let got = <X as Shape72<u8, u16, X>>::work72(&mut protocol);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call72_1<X: Shape72<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 72, 1];
    let mut protocol = X::fresh();
    let got = <X as Shape72<u8, u16, X>>::apply72(&mut protocol);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call72_2<X: Shape72<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 72, 2];
    let mut protocol = X::fresh();
    let got = <X as Shape72<u8, u16, X>>::begin72(&mut protocol);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call72_3<X: Shape72<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 72, 3];
    let mut protocol = X::fresh();
    let got = <X as Shape72<u8, u16, X>>::zeta72(&mut protocol);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call72_4<X: Shape72<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 72, 4];
    let mut protocol = X::fresh();
    let got = <X as Shape72<u8, u16, X>>::reveal72(&mut protocol);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call72_5<X: Shape72<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 72, 5];
    let mut protocol = X::fresh();
    let got = <X as Shape72<u8, u16, X>>::a72(&mut protocol);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call72_6<X: Shape72<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 72, 6];
    let mut protocol = X::fresh();
    let got = <X as Shape72<u8, u16, X>>::Upper72(&mut protocol);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call72_7<X: Shape72<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 72, 7];
    let mut protocol = X::fresh();
    let got = <X as Shape72<u8, u16, X>>::snake_case_name_of_a_method72(&mut protocol);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call72_8<X: Shape72<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 72, 8];
    let mut protocol = X::fresh();
    let got = <X as Shape72<u8, u16, X>>::new72(&mut protocol);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call72_9<X: Shape72<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 72, 9];
    let mut protocol = X::fresh();
    let got = <X as Shape72<u8, u16, X>>::delegate72(&mut protocol);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call72_10<X: Shape72<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 72, 10];
    let mut protocol = X::fresh();
    let got = <X as Shape72<u8, u16, X>>::p72(&mut protocol);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call72_11<X: Shape72<u8, u16, X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 72, 11];
    let mut protocol = X::fresh();
    let got = <X as Shape72<u8, u16, X>>::multiply72(&mut protocol);
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn default72<X: Shape72<u8, u16, X>+ Log + Send + Sync + 'static>(_: &[u8], _: u64) -> Outcome
{
    super::same("a default method", &<X as Shape72<u8, u16, X>>::twice72(), &2000)
}
/// prot
#[delegatable_protocol]
trait Shape73<P,>
where
    P: Log,
{
    fn work73<'a>(lhs: &mut P) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
    /// documented
    fn apply73<'a>(bits: &mut P) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>;
}
pub struct Worker73<P>(PhantomData<P>);
impl<P> Shape73<P> for Worker73<P>
where
    P: Log,
{
    fn work73<'a>(lhs: &mut P) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let r: Vec<u64> = vec![1, 73, 0]; lhs.log(r.clone()); Box::pin(async move { r })
    }
    fn apply73<'a>(bits: &mut P) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let r: Vec<u64> = vec![1, 73, 1]; bits.log(r.clone()); Box::pin(async move { r })
    }
}
pub struct Decoy73<P>(PhantomData<P>);
impl<P> Shape73<P> for Decoy73<P>
where
    P: Log,
{
    fn work73<'a>(lhs: &mut P) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let r: Vec<u64> = vec![3, 73, 0]; lhs.log(r.clone()); Box::pin(async move { r })
    }
    fn apply73<'a>(bits: &mut P) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let r: Vec<u64> = vec![3, 73, 1]; bits.log(r.clone()); Box::pin(async move { r })
    }
}
impl Shape73Marker for Dele {
    type Marker = Delegate;
}
impl Shape73Delegate<Dele> for Dele {
    type Delegate = Worker73<Dele>;
}
impl Shape73Marker for Own {
    type Marker = OwnMarker;
}
impl Shape73Delegate<Own> for Own {
    type Delegate = Decoy73<Own>;
}
impl Shape73Impl<Own, OwnMarker> for Own {
    fn work73<'a>(lhs: &mut Own) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let r: Vec<u64> = vec![2, 73, 0]; lhs.log(r.clone()); Box::pin(async move { r })
    }
    fn apply73<'a>(bits: &mut Own) -> Pin<Box<dyn Future<Output = Vec<u64>> + 'a>>
    {
        let r: Vec<u64> = vec![2, 73, 1]; bits.log(r.clone()); Box::pin(async move { r })
    }
}
fn call73_0<X: Shape73<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 73, 0];
    let mut protocol = X::fresh();
    let got = block_on(<X as Shape73<X>>::work73(&mut protocol));
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
fn call73_1<X: Shape73<X> + Log + Spy + Send + Sync + Clone + 'static>(v: &[u8], tag: u64) -> Outcome
{
    
    let want: Vec<u64> = vec![tag, 73, 1];
    let mut protocol = X::fresh();
    let got = block_on(<X as Shape73<X>>::apply73(&mut protocol));
    super::same("the result", &got, &want)?;
    super::same("what the protocol was told", &protocol.seen(), &vec![want.clone()])?;
    Ok(())
}
/// trait and method, number of values, call through a delegating type and through one with its own implementation
pub const CALLS: [(&str, usize, fn(&[u8], u64) -> Outcome, fn(&[u8], u64) -> Outcome); 261] = [
    ("Shape0::work0", 0, call0_0::<Dele>, call0_0::<Own>),
    ("Shape0::apply0", 0, call0_1::<Dele>, call0_1::<Own>),
    ("Shape0::begin0", 0, call0_2::<Dele>, call0_2::<Own>),
    ("Shape0::zeta0", 0, call0_3::<Dele>, call0_3::<Own>),
    ("Shape0::reveal0", 0, call0_4::<Dele>, call0_4::<Own>),
    ("Shape0::a0", 0, call0_5::<Dele>, call0_5::<Own>),
    ("Shape0::Upper0", 0, call0_6::<Dele>, call0_6::<Own>),
    ("Shape0::snake_case_name_of_a_method0", 0, call0_7::<Dele>, call0_7::<Own>),
    ("Shape0::new0", 0, call0_8::<Dele>, call0_8::<Own>),
    ("Shape0::delegate0", 0, call0_9::<Dele>, call0_9::<Own>),
    ("Shape0::p0", 0, call0_10::<Dele>, call0_10::<Own>),
    ("Shape0::multiply0", 0, call0_11::<Dele>, call0_11::<Own>),
    ("Shape0::twice0", 0, default0::<Dele>, default0::<Own>),
    ("Shape1::work1", 0, call1_0::<Dele>, call1_0::<Own>),
    ("Shape1::apply1", 0, call1_1::<Dele>, call1_1::<Own>),
    ("Shape2::work2", 1, call2_0::<Dele>, call2_0::<Own>),
    ("Shape2::apply2", 1, call2_1::<Dele>, call2_1::<Own>),
    ("Shape3::work3", 1, call3_0::<Dele>, call3_0::<Own>),
    ("Shape3::apply3", 1, call3_1::<Dele>, call3_1::<Own>),
    ("Shape3::begin3", 1, call3_2::<Dele>, call3_2::<Own>),
    ("Shape4::work4", 2, call4_0::<Dele>, call4_0::<Own>),
    ("Shape4::apply4", 2, call4_1::<Dele>, call4_1::<Own>),
    ("Shape4::begin4", 2, call4_2::<Dele>, call4_2::<Own>),
    ("Shape5::work5", 2, call5_0::<Dele>, call5_0::<Own>),
    ("Shape6::work6", 3, call6_0::<Dele>, call6_0::<Own>),
    ("Shape7::work7", 3, call7_0::<Dele>, call7_0::<Own>),
    ("Shape7::apply7", 3, call7_1::<Dele>, call7_1::<Own>),
    ("Shape7::twice7", 0, default7::<Dele>, default7::<Own>),
    ("Shape8::work8", 4, call8_0::<Dele>, call8_0::<Own>),
    ("Shape8::apply8", 4, call8_1::<Dele>, call8_1::<Own>),
    ("Shape8::twice8", 0, default8::<Dele>, default8::<Own>),
    ("Shape9::work9", 4, call9_0::<Dele>, call9_0::<Own>),
    ("Shape9::apply9", 4, call9_1::<Dele>, call9_1::<Own>),
    ("Shape9::begin9", 4, call9_2::<Dele>, call9_2::<Own>),
    ("Shape10::work10", 5, call10_0::<Dele>, call10_0::<Own>),
    ("Shape10::apply10", 5, call10_1::<Dele>, call10_1::<Own>),
    ("Shape10::begin10", 5, call10_2::<Dele>, call10_2::<Own>),
    ("Shape11::work11", 5, call11_0::<Dele>, call11_0::<Own>),
    ("Shape12::work12", 3, call12_0::<Dele>, call12_0::<Own>),
    ("Shape13::work13", 3, call13_0::<Dele>, call13_0::<Own>),
    ("Shape13::apply13", 3, call13_1::<Dele>, call13_1::<Own>),
    ("Shape13::begin13", 3, call13_2::<Dele>, call13_2::<Own>),
    ("Shape13::zeta13", 3, call13_3::<Dele>, call13_3::<Own>),
    ("Shape13::reveal13", 3, call13_4::<Dele>, call13_4::<Own>),
    ("Shape13::a13", 3, call13_5::<Dele>, call13_5::<Own>),
    ("Shape13::Upper13", 3, call13_6::<Dele>, call13_6::<Own>),
    ("Shape13::snake_case_name_of_a_method13", 3, call13_7::<Dele>, call13_7::<Own>),
    ("Shape13::new13", 3, call13_8::<Dele>, call13_8::<Own>),
    ("Shape13::delegate13", 3, call13_9::<Dele>, call13_9::<Own>),
    ("Shape13::p13", 3, call13_10::<Dele>, call13_10::<Own>),
    ("Shape13::multiply13", 3, call13_11::<Dele>, call13_11::<Own>),
    ("Shape14::work14", 2, call14_0::<Dele>, call14_0::<Own>),
    ("Shape14::apply14", 2, call14_1::<Dele>, call14_1::<Own>),
    ("Shape15::work15", 2, call15_0::<Dele>, call15_0::<Own>),
    ("Shape15::apply15", 2, call15_1::<Dele>, call15_1::<Own>),
    ("Shape15::begin15", 2, call15_2::<Dele>, call15_2::<Own>),
    ("Shape15::twice15", 0, default15::<Dele>, default15::<Own>),
    ("Shape16::work16", 4, call16_0::<Dele>, call16_0::<Own>),
    ("Shape16::apply16", 4, call16_1::<Dele>, call16_1::<Own>),
    ("Shape16::begin16", 4, call16_2::<Dele>, call16_2::<Own>),
    ("Shape16::twice16", 0, default16::<Dele>, default16::<Own>),
    ("Shape17::work17", 4, call17_0::<Dele>, call17_0::<Own>),
    ("Shape18::work18", 3, call18_0::<Dele>, call18_0::<Own>),
    ("Shape18::apply18", 3, call18_1::<Dele>, call18_1::<Own>),
    ("Shape18::begin18", 3, call18_2::<Dele>, call18_2::<Own>),
    ("Shape18::zeta18", 3, call18_3::<Dele>, call18_3::<Own>),
    ("Shape18::reveal18", 3, call18_4::<Dele>, call18_4::<Own>),
    ("Shape18::a18", 3, call18_5::<Dele>, call18_5::<Own>),
    ("Shape18::Upper18", 3, call18_6::<Dele>, call18_6::<Own>),
    ("Shape18::snake_case_name_of_a_method18", 3, call18_7::<Dele>, call18_7::<Own>),
    ("Shape18::new18", 3, call18_8::<Dele>, call18_8::<Own>),
    ("Shape18::delegate18", 3, call18_9::<Dele>, call18_9::<Own>),
    ("Shape18::p18", 3, call18_10::<Dele>, call18_10::<Own>),
    ("Shape18::multiply18", 3, call18_11::<Dele>, call18_11::<Own>),
    ("Shape19::work19", 3, call19_0::<Dele>, call19_0::<Own>),
    ("Shape19::apply19", 3, call19_1::<Dele>, call19_1::<Own>),
    ("Shape20::work20", 2, call20_0::<Dele>, call20_0::<Own>),
    ("Shape20::apply20", 2, call20_1::<Dele>, call20_1::<Own>),
    ("Shape21::work21", 2, call21_0::<Dele>, call21_0::<Own>),
    ("Shape21::apply21", 2, call21_1::<Dele>, call21_1::<Own>),
    ("Shape21::begin21", 2, call21_2::<Dele>, call21_2::<Own>),
    ("Shape22::work22", 3, call22_0::<Dele>, call22_0::<Own>),
    ("Shape22::apply22", 3, call22_1::<Dele>, call22_1::<Own>),
    ("Shape22::begin22", 3, call22_2::<Dele>, call22_2::<Own>),
    ("Shape23::work23", 3, call23_0::<Dele>, call23_0::<Own>),
    ("Shape23::twice23", 0, default23::<Dele>, default23::<Own>),
    ("Shape24::work24", 2, call24_0::<Dele>, call24_0::<Own>),
    ("Shape24::twice24", 0, default24::<Dele>, default24::<Own>),
    ("Shape25::work25", 2, call25_0::<Dele>, call25_0::<Own>),
    ("Shape25::apply25", 2, call25_1::<Dele>, call25_1::<Own>),
    ("Shape26::work26", 2, call26_0::<Dele>, call26_0::<Own>),
    ("Shape26::apply26", 2, call26_1::<Dele>, call26_1::<Own>),
    ("Shape27::work27", 2, call27_0::<Dele>, call27_0::<Own>),
    ("Shape27::apply27", 2, call27_1::<Dele>, call27_1::<Own>),
    ("Shape27::begin27", 2, call27_2::<Dele>, call27_2::<Own>),
    ("Shape28::work28", 3, call28_0::<Dele>, call28_0::<Own>),
    ("Shape28::apply28", 3, call28_1::<Dele>, call28_1::<Own>),
    ("Shape28::begin28", 3, call28_2::<Dele>, call28_2::<Own>),
    ("Shape29::work29", 3, call29_0::<Dele>, call29_0::<Own>),
    ("Shape30::work30", 2, call30_0::<Dele>, call30_0::<Own>),
    ("Shape31::work31", 2, call31_0::<Dele>, call31_0::<Own>),
    ("Shape31::apply31", 2, call31_1::<Dele>, call31_1::<Own>),
    ("Shape31::begin31", 2, call31_2::<Dele>, call31_2::<Own>),
    ("Shape31::zeta31", 2, call31_3::<Dele>, call31_3::<Own>),
    ("Shape31::reveal31", 2, call31_4::<Dele>, call31_4::<Own>),
    ("Shape31::a31", 2, call31_5::<Dele>, call31_5::<Own>),
    ("Shape31::Upper31", 2, call31_6::<Dele>, call31_6::<Own>),
    ("Shape31::snake_case_name_of_a_method31", 2, call31_7::<Dele>, call31_7::<Own>),
    ("Shape31::new31", 2, call31_8::<Dele>, call31_8::<Own>),
    ("Shape31::delegate31", 2, call31_9::<Dele>, call31_9::<Own>),
    ("Shape31::p31", 2, call31_10::<Dele>, call31_10::<Own>),
    ("Shape31::multiply31", 2, call31_11::<Dele>, call31_11::<Own>),
    ("Shape31::twice31", 0, default31::<Dele>, default31::<Own>),
    ("Shape32::work32", 2, call32_0::<Dele>, call32_0::<Own>),
    ("Shape32::apply32", 2, call32_1::<Dele>, call32_1::<Own>),
    ("Shape32::twice32", 0, default32::<Dele>, default32::<Own>),
    ("Shape33::work33", 2, call33_0::<Dele>, call33_0::<Own>),
    ("Shape33::apply33", 2, call33_1::<Dele>, call33_1::<Own>),
    ("Shape33::begin33", 2, call33_2::<Dele>, call33_2::<Own>),
    ("Shape34::work34", 3, call34_0::<Dele>, call34_0::<Own>),
    ("Shape34::apply34", 3, call34_1::<Dele>, call34_1::<Own>),
    ("Shape34::begin34", 3, call34_2::<Dele>, call34_2::<Own>),
    ("Shape35::work35", 3, call35_0::<Dele>, call35_0::<Own>),
    ("Shape36::work36", 2, call36_0::<Dele>, call36_0::<Own>),
    ("Shape36::apply36", 2, call36_1::<Dele>, call36_1::<Own>),
    ("Shape36::begin36", 2, call36_2::<Dele>, call36_2::<Own>),
    ("Shape36::zeta36", 2, call36_3::<Dele>, call36_3::<Own>),
    ("Shape36::reveal36", 2, call36_4::<Dele>, call36_4::<Own>),
    ("Shape36::a36", 2, call36_5::<Dele>, call36_5::<Own>),
    ("Shape36::Upper36", 2, call36_6::<Dele>, call36_6::<Own>),
    ("Shape36::snake_case_name_of_a_method36", 2, call36_7::<Dele>, call36_7::<Own>),
    ("Shape36::new36", 2, call36_8::<Dele>, call36_8::<Own>),
    ("Shape36::delegate36", 2, call36_9::<Dele>, call36_9::<Own>),
    ("Shape36::p36", 2, call36_10::<Dele>, call36_10::<Own>),
    ("Shape36::multiply36", 2, call36_11::<Dele>, call36_11::<Own>),
    ("Shape37::work37", 2, call37_0::<Dele>, call37_0::<Own>),
    ("Shape37::apply37", 2, call37_1::<Dele>, call37_1::<Own>),
    ("Shape38::work38", 3, call38_0::<Dele>, call38_0::<Own>),
    ("Shape38::apply38", 3, call38_1::<Dele>, call38_1::<Own>),
    ("Shape39::work39", 3, call39_0::<Dele>, call39_0::<Own>),
    ("Shape39::apply39", 3, call39_1::<Dele>, call39_1::<Own>),
    ("Shape39::begin39", 3, call39_2::<Dele>, call39_2::<Own>),
    ("Shape39::twice39", 0, default39::<Dele>, default39::<Own>),
    ("Shape40::work40", 2, call40_0::<Dele>, call40_0::<Own>),
    ("Shape40::apply40", 2, call40_1::<Dele>, call40_1::<Own>),
    ("Shape40::begin40", 2, call40_2::<Dele>, call40_2::<Own>),
    ("Shape40::twice40", 0, default40::<Dele>, default40::<Own>),
    ("Shape41::work41", 2, call41_0::<Dele>, call41_0::<Own>),
    ("Shape42::work42", 3, call42_0::<Dele>, call42_0::<Own>),
    ("Shape43::work43", 3, call43_0::<Dele>, call43_0::<Own>),
    ("Shape43::apply43", 3, call43_1::<Dele>, call43_1::<Own>),
    ("Shape44::work44", 2, call44_0::<Dele>, call44_0::<Own>),
    ("Shape44::apply44", 2, call44_1::<Dele>, call44_1::<Own>),
    ("Shape45::work45", 2, call45_0::<Dele>, call45_0::<Own>),
    ("Shape45::apply45", 2, call45_1::<Dele>, call45_1::<Own>),
    ("Shape45::begin45", 2, call45_2::<Dele>, call45_2::<Own>),
    ("Shape46::work46", 3, call46_0::<Dele>, call46_0::<Own>),
    ("Shape46::apply46", 3, call46_1::<Dele>, call46_1::<Own>),
    ("Shape46::begin46", 3, call46_2::<Dele>, call46_2::<Own>),
    ("Shape47::work47", 3, call47_0::<Dele>, call47_0::<Own>),
    ("Shape47::twice47", 0, default47::<Dele>, default47::<Own>),
    ("Shape48::work48", 2, call48_0::<Dele>, call48_0::<Own>),
    ("Shape48::twice48", 0, default48::<Dele>, default48::<Own>),
    ("Shape49::work49", 2, call49_0::<Dele>, call49_0::<Own>),
    ("Shape49::apply49", 2, call49_1::<Dele>, call49_1::<Own>),
    ("Shape49::begin49", 2, call49_2::<Dele>, call49_2::<Own>),
    ("Shape49::zeta49", 2, call49_3::<Dele>, call49_3::<Own>),
    ("Shape49::reveal49", 2, call49_4::<Dele>, call49_4::<Own>),
    ("Shape49::a49", 2, call49_5::<Dele>, call49_5::<Own>),
    ("Shape49::Upper49", 2, call49_6::<Dele>, call49_6::<Own>),
    ("Shape49::snake_case_name_of_a_method49", 2, call49_7::<Dele>, call49_7::<Own>),
    ("Shape49::new49", 2, call49_8::<Dele>, call49_8::<Own>),
    ("Shape49::delegate49", 2, call49_9::<Dele>, call49_9::<Own>),
    ("Shape49::p49", 2, call49_10::<Dele>, call49_10::<Own>),
    ("Shape49::multiply49", 2, call49_11::<Dele>, call49_11::<Own>),
    ("Shape50::work50", 2, call50_0::<Dele>, call50_0::<Own>),
    ("Shape50::apply50", 2, call50_1::<Dele>, call50_1::<Own>),
    ("Shape51::work51", 2, call51_0::<Dele>, call51_0::<Own>),
    ("Shape51::apply51", 2, call51_1::<Dele>, call51_1::<Own>),
    ("Shape51::begin51", 2, call51_2::<Dele>, call51_2::<Own>),
    ("Shape52::work52", 2, call52_0::<Dele>, call52_0::<Own>),
    ("Shape52::apply52", 2, call52_1::<Dele>, call52_1::<Own>),
    ("Shape52::begin52", 2, call52_2::<Dele>, call52_2::<Own>),
    ("Shape53::work53", 2, call53_0::<Dele>, call53_0::<Own>),
    ("Shape54::work54", 5, call54_0::<Dele>, call54_0::<Own>),
    ("Shape54::apply54", 5, call54_1::<Dele>, call54_1::<Own>),
    ("Shape54::begin54", 5, call54_2::<Dele>, call54_2::<Own>),
    ("Shape54::zeta54", 5, call54_3::<Dele>, call54_3::<Own>),
    ("Shape54::reveal54", 5, call54_4::<Dele>, call54_4::<Own>),
    ("Shape54::a54", 5, call54_5::<Dele>, call54_5::<Own>),
    ("Shape54::Upper54", 5, call54_6::<Dele>, call54_6::<Own>),
    ("Shape54::snake_case_name_of_a_method54", 5, call54_7::<Dele>, call54_7::<Own>),
    ("Shape54::new54", 5, call54_8::<Dele>, call54_8::<Own>),
    ("Shape54::delegate54", 5, call54_9::<Dele>, call54_9::<Own>),
    ("Shape54::p54", 5, call54_10::<Dele>, call54_10::<Own>),
    ("Shape54::multiply54", 5, call54_11::<Dele>, call54_11::<Own>),
    ("Shape55::work55", 5, call55_0::<Dele>, call55_0::<Own>),
    ("Shape55::apply55", 5, call55_1::<Dele>, call55_1::<Own>),
    ("Shape55::twice55", 0, default55::<Dele>, default55::<Own>),
    ("Shape56::work56", 7, call56_0::<Dele>, call56_0::<Own>),
    ("Shape56::apply56", 7, call56_1::<Dele>, call56_1::<Own>),
    ("Shape56::twice56", 0, default56::<Dele>, default56::<Own>),
    ("Shape57::work57", 7, call57_0::<Dele>, call57_0::<Own>),
    ("Shape57::apply57", 7, call57_1::<Dele>, call57_1::<Own>),
    ("Shape57::begin57", 7, call57_2::<Dele>, call57_2::<Own>),
    ("Shape58::work58", 9, call58_0::<Dele>, call58_0::<Own>),
    ("Shape58::apply58", 9, call58_1::<Dele>, call58_1::<Own>),
    ("Shape58::begin58", 9, call58_2::<Dele>, call58_2::<Own>),
    ("Shape59::work59", 9, call59_0::<Dele>, call59_0::<Own>),
    ("Shape60::work60", 12, call60_0::<Dele>, call60_0::<Own>),
    ("Shape61::work61", 12, call61_0::<Dele>, call61_0::<Own>),
    ("Shape61::apply61", 12, call61_1::<Dele>, call61_1::<Own>),
    ("Shape62::work62", 8, call62_0::<Dele>, call62_0::<Own>),
    ("Shape62::apply62", 8, call62_1::<Dele>, call62_1::<Own>),
    ("Shape63::work63", 8, call63_0::<Dele>, call63_0::<Own>),
    ("Shape63::apply63", 8, call63_1::<Dele>, call63_1::<Own>),
    ("Shape63::begin63", 8, call63_2::<Dele>, call63_2::<Own>),
    ("Shape63::twice63", 0, default63::<Dele>, default63::<Own>),
    ("Shape64::work64", 7, call64_0::<Dele>, call64_0::<Own>),
    ("Shape64::apply64", 7, call64_1::<Dele>, call64_1::<Own>),
    ("Shape64::begin64", 7, call64_2::<Dele>, call64_2::<Own>),
    ("Shape64::twice64", 0, default64::<Dele>, default64::<Own>),
    ("Shape65::work65", 7, call65_0::<Dele>, call65_0::<Own>),
    ("Shape66::work66", 6, call66_0::<Dele>, call66_0::<Own>),
    ("Shape67::work67", 6, call67_0::<Dele>, call67_0::<Own>),
    ("Shape67::apply67", 6, call67_1::<Dele>, call67_1::<Own>),
    ("Shape67::begin67", 6, call67_2::<Dele>, call67_2::<Own>),
    ("Shape67::zeta67", 6, call67_3::<Dele>, call67_3::<Own>),
    ("Shape67::reveal67", 6, call67_4::<Dele>, call67_4::<Own>),
    ("Shape67::a67", 6, call67_5::<Dele>, call67_5::<Own>),
    ("Shape67::Upper67", 6, call67_6::<Dele>, call67_6::<Own>),
    ("Shape67::snake_case_name_of_a_method67", 6, call67_7::<Dele>, call67_7::<Own>),
    ("Shape67::new67", 6, call67_8::<Dele>, call67_8::<Own>),
    ("Shape67::delegate67", 6, call67_9::<Dele>, call67_9::<Own>),
    ("Shape67::p67", 6, call67_10::<Dele>, call67_10::<Own>),
    ("Shape67::multiply67", 6, call67_11::<Dele>, call67_11::<Own>),
    ("Shape68::work68", 8, call68_0::<Dele>, call68_0::<Own>),
    ("Shape68::apply68", 8, call68_1::<Dele>, call68_1::<Own>),
    ("Shape69::work69", 8, call69_0::<Dele>, call69_0::<Own>),
    ("Shape69::apply69", 8, call69_1::<Dele>, call69_1::<Own>),
    ("Shape69::begin69", 8, call69_2::<Dele>, call69_2::<Own>),
    ("Shape70::work70", 1, call70_0::<Dele>, call70_0::<Own>),
    ("Shape70::apply70", 1, call70_1::<Dele>, call70_1::<Own>),
    ("Shape70::begin70", 1, call70_2::<Dele>, call70_2::<Own>),
    ("Shape71::work71", 1, call71_0::<Dele>, call71_0::<Own>),
    ("Shape71::twice71", 0, default71::<Dele>, default71::<Own>),
    ("Shape72::work72", 0, call72_0::<Dele>, call72_0::<Own>),
    ("Shape72::apply72", 0, call72_1::<Dele>, call72_1::<Own>),
    ("Shape72::begin72", 0, call72_2::<Dele>, call72_2::<Own>),
    ("Shape72::zeta72", 0, call72_3::<Dele>, call72_3::<Own>),
    ("Shape72::reveal72", 0, call72_4::<Dele>, call72_4::<Own>),
    ("Shape72::a72", 0, call72_5::<Dele>, call72_5::<Own>),
    ("Shape72::Upper72", 0, call72_6::<Dele>, call72_6::<Own>),
    ("Shape72::snake_case_name_of_a_method72", 0, call72_7::<Dele>, call72_7::<Own>),
    ("Shape72::new72", 0, call72_8::<Dele>, call72_8::<Own>),
    ("Shape72::delegate72", 0, call72_9::<Dele>, call72_9::<Own>),
    ("Shape72::p72", 0, call72_10::<Dele>, call72_10::<Own>),
    ("Shape72::multiply72", 0, call72_11::<Dele>, call72_11::<Own>),
    ("Shape72::twice72", 0, default72::<Dele>, default72::<Own>),
    ("Shape73::work73", 0, call73_0::<Dele>, call73_0::<Own>),
    ("Shape73::apply73", 0, call73_1::<Dele>, call73_1::<Own>),
];
