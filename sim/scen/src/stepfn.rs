//! Step functions for incremental computation.
use parity_scale_codec::{Decode, Encode};
use std::marker::PhantomData;
use zknova::FunctionCircuit;
use zkstd::circuit::prelude::{CircuitDriver, FieldAssignment};
use zkstd::common::{IntGroup, PrimeField};
use zkstd::matrix::DenseVectors;
use zkstd::r1cs::R1cs;

/// What a step function computes, in the model's arithmetic.
pub trait StepModel {
    const NAME: &'static str;
    fn model<M: model::Modulus>(z: model::Fe<M>) -> model::Fe<M>;
}
impl<F: PrimeField> StepModel for Cubic<F> {
    const NAME: &'static str = "cubic";
    fn model<M: model::Modulus>(z: model::Fe<M>) -> model::Fe<M> {
        z * z * z + z + model::Fe::from_u64(5)
    }
}

/// z -> z^3 + z + 5
#[derive(Clone, Debug, Default, PartialEq, Eq, Encode, Decode)]
pub struct Cubic<Field: PrimeField>(PhantomData<Field>);

impl<F: PrimeField> FunctionCircuit<F> for Cubic<F> {
    fn invoke(z: &DenseVectors<F>) -> DenseVectors<F> {
        DenseVectors::new(vec![z[0] * z[0] * z[0] + z[0] + F::from(5)])
    }
    fn invoke_cs<C: CircuitDriver<Scalar = F>>(cs: &mut R1cs<C>, z_i: Vec<FieldAssignment<F>>) -> Vec<FieldAssignment<F>> {
        let five = FieldAssignment::constant(&F::from(5));
        let s = FieldAssignment::square(cs, &z_i[0]);
        let c = FieldAssignment::mul(cs, &s, &z_i[0]);
        vec![&(&c + &z_i[0]) + &five]
    }
}

macro_rules! step_function {
    ($name:ident, $doc:expr, |$m:ident| $model:expr, |$z:ident| $native:expr, |$cs:ident, $a:ident| $circuit:expr) => {
        impl<F: PrimeField> StepModel for $name<F> {
            const NAME: &'static str = $doc;
            fn model<M: model::Modulus>($m: model::Fe<M>) -> model::Fe<M> {
                $model
            }
        }
        #[doc = $doc]
        #[derive(Clone, Debug, Default, PartialEq, Eq, Encode, Decode)]
        pub struct $name<Field: PrimeField>(PhantomData<Field>);
        impl<F: PrimeField> FunctionCircuit<F> for $name<F> {
            fn invoke(z: &DenseVectors<F>) -> DenseVectors<F> {
                let $z = z[0];
                DenseVectors::new(vec![$native])
            }
            fn invoke_cs<C: CircuitDriver<Scalar = F>>($cs: &mut R1cs<C>, z_i: Vec<FieldAssignment<F>>) -> Vec<FieldAssignment<F>> {
                let $a = &z_i[0];
                vec![$circuit]
            }
        }
    };
}
step_function!(Ident, "z -> z", |m| m, |z| z, |_cs, z| z.clone());
step_function!(Konst, "z -> 7", |_m| model::Fe::from_u64(7), |_z| F::from(7), |_cs, _z| FieldAssignment::constant(&F::from(7)));
step_function!(Lin, "z -> 3 z - 1", |m| m + m + m - model::Fe::one(), |z| z + z + z - F::one(), |_cs, z| &(&(z + z) + z) - &FieldAssignment::constant(&F::one()));
step_function!(Pow, "z -> z^(2^64) + 1", |m| m.pow([0, 1, 0, 0]) + model::Fe::one(), |z| (0..64).fold(z, |x, _| x.square()) + F::one(), |cs, z| {
    let mut x = z.clone();
    for _ in 0..64 {
        x = FieldAssignment::square(cs, &x);
    }
    &x + &FieldAssignment::constant(&F::one())
});
step_function!(Cond, "z -> z == 0 ? 1 : z - 1", |m| if m.is_zero() { model::Fe::one() } else { m - model::Fe::one() }, |z| if z == F::zero() { F::one() } else { z - F::one() }, |cs, z| {
    let zero = FieldAssignment::constant(&F::zero());
    let one = FieldAssignment::constant(&F::one());
    let c = FieldAssignment::is_eq(cs, z, &zero);
    FieldAssignment::conditional_select(cs, &one, &(z - &one), &c)
});
