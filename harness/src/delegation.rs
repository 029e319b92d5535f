//! C27: types that delegate a protocol behave exactly like the delegate; types with an implementation of their own use that.

use crate::engine::*;
use crate::fieldlist::F257;
use futures::executor::block_on;
use futures::Future;
use jester_sharing::shamir_secret_sharing::ShamirSecretSharingScheme;
use jester_sharing::*;
use num::{BigUint, ToPrimitive};
use std::cell::RefCell;
use std::fmt::Debug;
use std::pin::Pin;

#[path = "delegation_gen.rs"]
mod delegation_gen;

pub type Outcome = Result<(), String>;
type F = F257;
type Share = (usize, F);

/// A protocol that remembers what it is told.
pub trait Log {
    fn log(&mut self, v: Vec<u64>);
}
pub trait Spy {
    fn fresh() -> Self;
    fn seen(&self) -> Vec<Vec<u64>>;
}

/// delegates every protocol
#[derive(Clone)]
pub struct Dele(Vec<Vec<u64>>);
/// has an implementation of its own for every protocol (and names a delegate that is not to be used)
#[derive(Clone)]
pub struct Own(Vec<Vec<u64>>);
pub struct OwnMarker;

macro_rules! recorder {
    ($t:ident) => {
        impl Log for $t {
            fn log(&mut self, v: Vec<u64>) {
                self.0.push(v)
            }
        }
        impl Spy for $t {
            fn fresh() -> $t {
                $t(vec![])
            }
            fn seen(&self) -> Vec<Vec<u64>> {
                self.0.clone()
            }
        }
        impl ShamirSecretSharingScheme<F> for $t {}
        impl CliqueCommunicationScheme<F, Share> for $t {
            fn reveal_shares(&mut self, _: Share) -> Pin<Box<dyn Future<Output = F> + Send>> {
                panic!("not used")
            }
            fn distribute_secret(&mut self, _: F) -> Pin<Box<dyn Future<Output = Vec<Share>> + Send>> {
                panic!("not used")
            }
        }
    };
}
recorder!(Dele);
recorder!(Own);

thread_local! {
    static NOTE: RefCell<Option<Vec<u64>>> = RefCell::new(None);
}
pub fn note(v: Vec<u64>) {
    NOTE.with(|n| *n.borrow_mut() = Some(v))
}
pub fn noted() -> Vec<u64> {
    NOTE.with(|n| n.borrow_mut().take()).unwrap_or_default()
}
pub fn same<T: PartialEq + Debug>(what: &str, got: &T, want: &T) -> Outcome {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} is {:?} instead of {:?}", what, got, want))
    }
}

// -------------------------------------------------------------------------------------------- the traits of the crate

fn share(i: usize, v: u64) -> Share {
    (i, F::from(BigUint::from(v)))
}

fn val(x: &F) -> u64 {
    jester_maths::prime::PrimeField::as_uint(x).to_u64().expect("small")
}

fn flat(s: &Share) -> [u64; 2] {
    [s.0 as u64, val(&s.1)]
}

/// What an implementation returns: who it is, and the arguments in their order.
fn result(tag: usize, method: usize, words: &[u64]) -> Share {
    share(tag * 100 + method, words.iter().fold(1, |a, w| (a * 31 + w) % 257))
}

/// Bodies of all methods; `$tag` identifies the implementation.
macro_rules! implementations {
    ($tag:expr, $p:ty, $who:ty, ($($m:ty)?),
     $mul:ident $umul:ident $rnd:ident $bit:ident $inv:ident $uinv:ident $or:ident $uor:ident $sel:ident) => {
        impl $mul<F, Share, $p $(, $m)?> for $who {
            fn multiply<'a>(protocol: &'a mut $p, lhs: &Share, rhs: &Share) -> Pin<Box<dyn Future<Output = Share> + Send + 'a>> {
                let w = [flat(lhs), flat(rhs)].concat();
                protocol.log(w.clone());
                Box::pin(async move { result($tag, 0, &w) })
            }
        }
        impl $umul<F, Share, $p $(, $m)?> for $who {
            fn unbounded_multiply<'a>(protocol: &'a mut $p, pairs: &[(Share, Share)]) -> Pin<Box<dyn Future<Output = Vec<Share>> + Send + 'a>> {
                let w: Vec<Vec<u64>> = pairs.iter().map(|(a, b)| [flat(a), flat(b)].concat()).collect();
                protocol.log(w.concat());
                Box::pin(async move { w.iter().map(|x| result($tag, 1, x)).collect() })
            }
        }
        impl $rnd<F, Share, $p $(, $m)?> for $who {
            fn generate_random_number_sharing<R>(rng: &mut R, protocol: &mut $p) -> Pin<Box<dyn Future<Output = Share> + Send>>
            where
                R: RngCore + CryptoRng,
            {
                let w = vec![rng.next_u32() as u64];
                protocol.log(w.clone());
                Box::pin(async move { result($tag, 2, &w) })
            }
        }
        impl $bit<F, Share, $p $(, $m)?> for $who {
            fn generate_random_bit<'a, R>(rng: &mut R, protocol: &'a mut $p) -> Pin<Box<dyn Future<Output = Share> + Send + 'a>>
            where
                R: RngCore + CryptoRng,
            {
                let w = vec![rng.next_u32() as u64];
                protocol.log(w.clone());
                Box::pin(async move { result($tag, 3, &w) })
            }
        }
        impl $inv<F, Share, $p $(, $m)?> for $who {
            fn inverse<'a, R>(rng: &'a mut R, protocol: &'a mut $p, x: &Share) -> Pin<Box<dyn Future<Output = Share> + 'a>>
            where
                R: RngCore + CryptoRng,
            {
                let w = [vec![rng.next_u32() as u64], flat(x).to_vec()].concat();
                protocol.log(w.clone());
                Box::pin(async move { result($tag, 4, &w) })
            }
        }
        impl $uinv<F, Share, $p $(, $m)?> for $who {
            fn unbounded_inverse<'a, R>(rng: &'a mut R, protocol: &'a mut $p, x: &[Share]) -> Pin<Box<dyn Future<Output = Vec<Share>> + 'a>>
            where
                R: RngCore + CryptoRng,
            {
                let k = rng.next_u32() as u64;
                let w: Vec<Vec<u64>> = x.iter().map(|s| [vec![k], flat(s).to_vec()].concat()).collect();
                protocol.log(w.concat());
                Box::pin(async move { w.iter().map(|x| result($tag, 5, x)).collect() })
            }
        }
        impl $or<F, Share, $p $(, $m)?> for $who {
            fn shared_or<'a, R>(rng: &'a mut R, protocol: &'a mut $p, x: &Share) -> Pin<Box<dyn Future<Output = Share> + 'a>>
            where
                R: RngCore + CryptoRng,
            {
                let w = [vec![rng.next_u32() as u64], flat(x).to_vec()].concat();
                protocol.log(w.clone());
                Box::pin(async move { result($tag, 6, &w) })
            }
        }
        impl $uor<F, Share, $p $(, $m)?> for $who {
            fn unbounded_shared_or<'a, R>(rng: &'a mut R, protocol: &'a mut $p, x: &[Share]) -> Pin<Box<dyn Future<Output = Share> + 'a>>
            where
                R: RngCore + CryptoRng,
            {
                let mut w = vec![rng.next_u32() as u64];
                x.iter().for_each(|s| w.extend(flat(s)));
                protocol.log(w.clone());
                Box::pin(async move { result($tag, 7, &w) })
            }
        }
        impl $sel<F, Share, $p $(, $m)?> for $who {
            fn joint_conditional_selection<'a>(
                protocol: &'a mut $p,
                condition: &Share,
                lhs: &Share,
                rhs: &Share,
            ) -> Pin<Box<dyn Future<Output = Share> + 'a>> {
                let w = [flat(condition), flat(lhs), flat(rhs)].concat();
                protocol.log(w.clone());
                Box::pin(async move { result($tag, 8, &w) })
            }
        }
    };
}

macro_rules! marked {
    ($p:ty, $marker:ty, $delegate:ty, $($m:ident $d:ident),*) => {
        $(
            impl $m for $p {
                type Marker = $marker;
            }
            impl $d<F, Share, $p> for $p {
                type Delegate = $delegate;
            }
        )*
    };
}

pub struct Worker;
pub struct Decoy;
implementations!(1, Dele, Worker, (), MultiplicationScheme UnboundedMultiplicationScheme RandomNumberGenerationScheme RandomBitGenerationScheme
    InversionScheme UnboundedInversionScheme OrFunctionScheme UnboundedOrFunctionScheme ConditionalSelectionScheme);
implementations!(3, Own, Decoy, (), MultiplicationScheme UnboundedMultiplicationScheme RandomNumberGenerationScheme RandomBitGenerationScheme
    InversionScheme UnboundedInversionScheme OrFunctionScheme UnboundedOrFunctionScheme ConditionalSelectionScheme);
implementations!(2, Own, Own, (OwnMarker), MultiplicationSchemeImpl UnboundedMultiplicationSchemeImpl RandomNumberGenerationSchemeImpl
    RandomBitGenerationSchemeImpl InversionSchemeImpl UnboundedInversionSchemeImpl OrFunctionSchemeImpl UnboundedOrFunctionSchemeImpl
    ConditionalSelectionSchemeImpl);
marked!(Dele, Delegate, Worker, MultiplicationSchemeMarker MultiplicationSchemeDelegate, UnboundedMultiplicationSchemeMarker
    UnboundedMultiplicationSchemeDelegate, RandomNumberGenerationSchemeMarker RandomNumberGenerationSchemeDelegate,
    RandomBitGenerationSchemeMarker RandomBitGenerationSchemeDelegate, InversionSchemeMarker InversionSchemeDelegate,
    UnboundedInversionSchemeMarker UnboundedInversionSchemeDelegate, OrFunctionSchemeMarker OrFunctionSchemeDelegate,
    UnboundedOrFunctionSchemeMarker UnboundedOrFunctionSchemeDelegate, ConditionalSelectionSchemeMarker ConditionalSelectionSchemeDelegate);
marked!(Own, OwnMarker, Decoy, MultiplicationSchemeMarker MultiplicationSchemeDelegate, UnboundedMultiplicationSchemeMarker
    UnboundedMultiplicationSchemeDelegate, RandomNumberGenerationSchemeMarker RandomNumberGenerationSchemeDelegate,
    RandomBitGenerationSchemeMarker RandomBitGenerationSchemeDelegate, InversionSchemeMarker InversionSchemeDelegate,
    UnboundedInversionSchemeMarker UnboundedInversionSchemeDelegate, OrFunctionSchemeMarker OrFunctionSchemeDelegate,
    UnboundedOrFunctionSchemeMarker UnboundedOrFunctionSchemeDelegate, ConditionalSelectionSchemeMarker ConditionalSelectionSchemeDelegate);

const METHODS: [&str; 9] = [
    "multiply",
    "unbounded_multiply",
    "generate_random_number_sharing",
    "generate_random_bit",
    "inverse",
    "unbounded_inverse",
    "shared_or",
    "unbounded_shared_or",
    "joint_conditional_selection",
];

/// Call a method of the crate through its trait and compare with what the chosen implementation does.
macro_rules! caller {
    ($name:ident, $p:ident) => {
        fn $name(tag: usize, method: usize, v: &[u64], count: usize) -> Outcome {
            let mut protocol = <$p as Spy>::fresh();
            let words = [5u32, 6, 7];
            let mut rng = crate::util::list_rng(&words);
            let s: Vec<Share> = v.iter().enumerate().map(|(i, x)| share(i + 1, *x)).collect();
            let f: Vec<Vec<u64>> = s.iter().map(|x| flat(x).to_vec()).collect();
            let list: Vec<Share> = s.iter().cycle().take(count).cloned().collect();
            let flist: Vec<Vec<u64>> = f.iter().cycle().take(count).cloned().collect();
            let (got, want, told): (Vec<Share>, Vec<Share>, Vec<u64>) = match method {
                0 => {
                    let w = [f[0].clone(), f[1].clone()].concat();
                    (vec![block_on(<$p as MultiplicationScheme<F, Share, $p>>::multiply(&mut protocol, &s[0], &s[1]))], vec![result(tag, 0, &w)], w)
                }
                1 => {
                    let pairs: Vec<(Share, Share)> = list.iter().cloned().zip(s.iter().rev().cycle().cloned()).collect();
                    let w: Vec<Vec<u64>> = pairs.iter().map(|(a, b)| [flat(a), flat(b)].concat()).collect();
                    (
                        block_on(<$p as UnboundedMultiplicationScheme<F, Share, $p>>::unbounded_multiply(&mut protocol, &pairs)),
                        w.iter().map(|x| result(tag, 1, x)).collect(),
                        w.concat(),
                    )
                }
                2 => (
                    vec![block_on(<$p as RandomNumberGenerationScheme<F, Share, $p>>::generate_random_number_sharing(&mut rng, &mut protocol))],
                    vec![result(tag, 2, &[5])],
                    vec![5],
                ),
                3 => (
                    vec![block_on(<$p as RandomBitGenerationScheme<F, Share, $p>>::generate_random_bit(&mut rng, &mut protocol))],
                    vec![result(tag, 3, &[5])],
                    vec![5],
                ),
                4 => {
                    let w = [vec![5], f[0].clone()].concat();
                    (vec![block_on(<$p as InversionScheme<F, Share, $p>>::inverse(&mut rng, &mut protocol, &s[0]))], vec![result(tag, 4, &w)], w)
                }
                5 => {
                    let w: Vec<Vec<u64>> = flist.iter().map(|x| [vec![5], x.clone()].concat()).collect();
                    (
                        block_on(<$p as UnboundedInversionScheme<F, Share, $p>>::unbounded_inverse(&mut rng, &mut protocol, &list)),
                        w.iter().map(|x| result(tag, 5, x)).collect(),
                        w.concat(),
                    )
                }
                6 => {
                    let w = [vec![5], f[0].clone()].concat();
                    (vec![block_on(<$p as OrFunctionScheme<F, Share, $p>>::shared_or(&mut rng, &mut protocol, &s[0]))], vec![result(tag, 6, &w)], w)
                }
                7 => {
                    let w = [vec![5], flist.concat()].concat();
                    (
                        vec![block_on(<$p as UnboundedOrFunctionScheme<F, Share, $p>>::unbounded_shared_or(&mut rng, &mut protocol, &list))],
                        vec![result(tag, 7, &w)],
                        w,
                    )
                }
                _ => {
                    let w = [f[0].clone(), f[1].clone(), f[2].clone()].concat();
                    (
                        vec![block_on(<$p as ConditionalSelectionScheme<F, Share, $p>>::joint_conditional_selection(
                            &mut protocol,
                            &s[0],
                            &s[1],
                            &s[2],
                        ))],
                        vec![result(tag, 8, &w)],
                        w,
                    )
                }
            };
            let plain = |x: &[Share]| x.iter().map(flat).collect::<Vec<_>>();
            same("the result", &plain(&got), &plain(&want))?;
            same("what the protocol was told", &Spy::seen(&protocol), &vec![told])?;
            // the generator was advanced by the implementation only
            if (2..=7).contains(&method) {
                same("the generator's next word", &RngCore::next_u32(&mut rng), &6)?;
            }
            Ok(())
        }
    };
}
caller!(delegated, Dele);
caller!(own, Own);

pub fn c27(rep: &Report) {
    let values: u64 = if rep.thorough { 6 } else { 3 };
    for (m, name) in METHODS.iter().enumerate() {
        for who in 0..2 {
            let scenario = format!("{} {}", ["delegating type", "own implementation"][who], name);
            rep.explore(&scenario, 0, threads(), |ch, _: &mut ()| {
                let v: Vec<u64> = (0..3).map(|_| [0, 1, 5, 256, 44, 129][ch.pick(values as u32) as usize]).collect();
                let count = ch.pick(5) as usize;
                if who == 0 {
                    delegated(1, m, &v, count)
                } else {
                    own(2, m, &v, count)
                }
            });
        }
    }
    rep.bound(format!("the {} protocol traits of the crate: all argument tuples over {} values, lists of 0 to 4 elements", METHODS.len(), values));
    for (name, n, dele, own) in delegation_gen::CALLS.iter() {
        for who in 0..2 {
            let scenario = format!("{} {}", ["delegating type", "own implementation"][who], name);
            rep.explore(&scenario, 0, threads(), |ch, _: &mut ()| {
                let v: Vec<u8> = (0..*n).map(|_| ch.pick(if *n > 6 { 2 } else { 3 }) as u8).collect();
                if who == 0 {
                    dele(&v, 1)
                } else {
                    own(&v, 2)
                }
            });
        }
    }
    rep.bound(format!(
        "74 user-defined traits from an alphabet of shapes (37 parameter lists of 0 to 12 parameters over 13 kinds, 9 generic headers, 4 result kinds, 1 to 12 methods, default methods, visibilities, trailing commas), {} methods: all argument tuples over 3 values (2 values for more than 6 arguments)",
        delegation_gen::CALLS.len()
    ));
    rep.assume("traits outside the alphabet of shapes are not covered; what the attribute rejects at compile time is not explored");
    rep.sample(|| "trait with fn work(rng: &u8, protocol: &u8, lhs: &u8, rhs: &u8), delegate called with 0,1,2,0 in this order".into());
}
