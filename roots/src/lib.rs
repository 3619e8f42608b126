//! Analysis roots: names every public entry point of the library so that the
//! MIR of everything reachable from the public API is collected. Nothing here
//! is ever executed.
#![allow(clippy::all)]
use libsecp256k1 as s;
use s::curve::*;
use s::util::*;
use s::*;
use sha2::Sha256;

fn t<T>(_: T) {}

pub mod ext {
    extern "C" {
        pub fn vx_fill(p: *mut u8, n: usize);
        pub fn vx_bool() -> bool;
        pub fn vx_bytes() -> &'static [u8];
        pub fn vx_str() -> &'static str;
        pub fn vx_sink_bytes(p: &[u8]);
        pub fn vx_sink_str(p: &str);
        pub fn vx_err();
    }
}

pub struct R0;
impl rand::RngCore for R0 {
    fn next_u32(&mut self) -> u32 {
        0
    }
    fn next_u64(&mut self) -> u64 {
        0
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        unsafe { ext::vx_fill(dest.as_mut_ptr(), dest.len()) }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

pub mod sd;

pub fn roots_field() {
    t(Field::new_raw);
    t(Field::new);
    t(Field::from_int);
    t(Field::normalize);
    t(Field::normalize_weak);
    t(Field::normalize_var);
    t(Field::normalizes_to_zero);
    t(Field::normalizes_to_zero_var);
    t(Field::set_int);
    t(Field::is_zero);
    t(Field::is_odd);
    t(Field::clear);
    t(Field::set_b32);
    t(Field::fill_b32);
    t(Field::b32);
    t(Field::neg_in_place);
    t(Field::neg);
    t(Field::mul_int);
    t(Field::cmp_var);
    t(Field::eq_var);
    t(Field::mul_in_place);
    t(Field::sqr_in_place);
    t(Field::sqr);
    t(Field::sqrt);
    t(Field::inv);
    t(Field::inv_var);
    t(Field::is_quad_var);
    t(Field::cmov);
    t(<Field as Default>::default);
    t(<Field as core::ops::Add<Field>>::add);
    t(<&Field as core::ops::Add<&Field>>::add);
    t(<Field as core::ops::AddAssign<&Field>>::add_assign);
    t(<Field as core::ops::AddAssign<Field>>::add_assign);
    t(<Field as core::ops::Mul<Field>>::mul);
    t(<&Field as core::ops::Mul<&Field>>::mul);
    t(<Field as core::ops::MulAssign<&Field>>::mul_assign);
    t(<Field as core::ops::MulAssign<Field>>::mul_assign);
    t(<Field as PartialEq>::eq);
    t(<Field as Ord>::cmp);
    t(<Field as PartialOrd>::partial_cmp);
    t(<FieldStorage as Default>::default);
    t(<FieldStorage as PartialEq>::eq);
    t(FieldStorage::new);
    t(FieldStorage::cmov);
    t(<Field as From<FieldStorage>>::from);
    t(<Field as Into<FieldStorage>>::into);
    t(<Field as Clone>::clone);
}

pub fn roots_scalar() {
    t(Scalar::clear);
    t(Scalar::set_int);
    t(Scalar::from_int);
    t(Scalar::bits);
    t(Scalar::bits_var);
    t(Scalar::cadd_bit);
    t(Scalar::set_b32);
    t(Scalar::b32);
    t(Scalar::fill_b32);
    t(Scalar::is_zero);
    t(Scalar::is_one);
    t(Scalar::is_high);
    t(Scalar::cond_neg_assign);
    t(Scalar::mul_in_place);
    t(Scalar::shr_int);
    t(Scalar::sqr_in_place);
    t(Scalar::sqr);
    t(Scalar::inv_in_place);
    t(Scalar::inv);
    t(Scalar::inv_var);
    t(Scalar::is_even);
    t(<Scalar as Default>::default);
    t(<Scalar as core::ops::Add<Scalar>>::add);
    t(<&Scalar as core::ops::Add<&Scalar>>::add);
    t(<Scalar as core::ops::AddAssign<&Scalar>>::add_assign);
    t(<Scalar as core::ops::AddAssign<Scalar>>::add_assign);
    t(<Scalar as core::ops::Mul<Scalar>>::mul);
    t(<&Scalar as core::ops::Mul<&Scalar>>::mul);
    t(<Scalar as core::ops::MulAssign<&Scalar>>::mul_assign);
    t(<Scalar as core::ops::MulAssign<Scalar>>::mul_assign);
    t(<Scalar as core::ops::Neg>::neg);
    t(<&Scalar as core::ops::Neg>::neg);
    t(<Scalar as PartialEq>::eq);
    t(<Scalar as core::fmt::LowerHex>::fmt);
}

pub fn roots_group() {
    t(<Affine as Default>::default);
    t(<Jacobian as Default>::default);
    t(<AffineStorage as Default>::default);
    t(Affine::new);
    t(Affine::set_xy);
    t(Affine::set_xquad);
    t(Affine::set_xo_var);
    t(Affine::is_infinity);
    t(Affine::is_valid_var);
    t(Affine::neg_in_place);
    t(Affine::neg);
    t(Affine::set_gej);
    t(Affine::from_gej);
    t(Affine::set_gej_var);
    t(Affine::set_gej_zinv);
    t(Affine::clear);
    t(<Affine as PartialEq>::eq);
    t(<Affine as Clone>::clone);
    t(set_table_gej_var);
    t(globalz_set_table_gej);
    t(Jacobian::new);
    t(Jacobian::set_infinity);
    t(Jacobian::set_ge);
    t(Jacobian::from_ge);
    t(Jacobian::eq_x_var);
    t(Jacobian::neg_in_place);
    t(Jacobian::neg);
    t(Jacobian::is_infinity);
    t(Jacobian::has_quad_y_var);
    t(Jacobian::double_nonzero_in_place);
    t(Jacobian::double_var_in_place);
    t(Jacobian::double_var);
    t(Jacobian::add_var_in_place);
    t(Jacobian::add_var);
    t(Jacobian::add_ge_in_place);
    t(Jacobian::add_ge);
    t(Jacobian::add_ge_var_in_place);
    t(Jacobian::add_ge_var);
    t(Jacobian::add_zinv_var_in_place);
    t(Jacobian::add_zinv_var);
    t(Jacobian::clear);
    t(Jacobian::rescale);
    t(<Affine as From<AffineStorage>>::from);
    t(<Affine as Into<AffineStorage>>::into);
    t(AffineStorage::new);
    t(AffineStorage::cmov);
}

pub fn roots_ecmult() {
    t(odd_multiples_table);
    t(ECMultContext::new_from_raw as unsafe fn(_) -> _);
    t(ECMultContext::inspect_raw);
    t(ECMultContext::new_boxed);
    t(ECMultContext::ecmult);
    t(ECMultContext::ecmult_const);
    t(ECMultContext::verify_raw);
    t(ECMultContext::recover_raw);
    t(ECMultContext::ecdh_raw::<Sha256>);
    t(ECMultGenContext::new_from_raw as unsafe fn(_) -> _);
    t(ECMultGenContext::inspect_raw);
    t(ECMultGenContext::new_boxed);
    t(ECMultGenContext::ecmult_gen);
    t(ECMultGenContext::sign_raw);
}

pub fn roots_der() {
    t(SignatureArray::new);
    t(SignatureArray::len);
    t(SignatureArray::is_empty);
    t(<SignatureArray as AsRef<[u8]>>::as_ref);
    t(<SignatureArray as AsMut<[u8]>>::as_mut);
    t(Decoder::new);
    t(Decoder::remaining_len);
    t(Decoder::read);
    t(Decoder::peek);
    t(Decoder::peek_slice);
    t(Decoder::skip);
    t(Decoder::read_constructed_sequence);
    t(Decoder::read_len);
    t(Decoder::read_integer);
    t(Decoder::read_seq_len_lax);
    t(Decoder::read_len_lax);
    t(Decoder::read_integer_lax);
}

pub fn roots_api() {
    t(PublicKey::from_secret_key_with_context);
    t(PublicKey::from_secret_key);
    t(PublicKey::parse_slice);
    t(PublicKey::parse);
    t(PublicKey::parse_compressed);
    t(PublicKey::serialize);
    t(PublicKey::serialize_compressed);
    t(PublicKey::tweak_add_assign_with_context);
    t(PublicKey::tweak_add_assign);
    t(PublicKey::tweak_mul_assign_with_context);
    t(PublicKey::tweak_mul_assign);
    t(PublicKey::combine);
    t(<PublicKey as Into<Affine>>::into);
    t(<PublicKey as TryFrom<Affine>>::try_from);
    t(<PublicKey as PartialEq>::eq);
    t(<PublicKey as Clone>::clone);
    t(SecretKey::parse);
    t(SecretKey::parse_slice);
    t(SecretKey::random::<R0>);
    t(SecretKey::serialize);
    t(SecretKey::tweak_add_assign);
    t(SecretKey::tweak_mul_assign);
    t(SecretKey::inv);
    t(SecretKey::clear);
    t(SecretKey::is_zero);
    t(<SecretKey as Default>::default);
    t(<SecretKey as Into<Scalar>>::into);
    t(<SecretKey as TryFrom<Scalar>>::try_from);
    t(<SecretKey as core::fmt::LowerHex>::fmt);
    t(<SecretKey as PartialEq>::eq);
    t(Signature::parse_overflowing);
    t(Signature::parse_standard);
    t(Signature::parse_overflowing_slice);
    t(Signature::parse_standard_slice);
    t(Signature::parse_der);
    t(Signature::parse_der_lax);
    t(Signature::normalize_s);
    t(Signature::serialize);
    t(Signature::serialize_der);
    t(<Signature as PartialEq>::eq);
    t(Message::parse);
    t(Message::parse_slice);
    t(Message::serialize);
    t(RecoveryId::parse);
    t(RecoveryId::parse_rpc);
    t(RecoveryId::serialize);
    t(<RecoveryId as Into<u8>>::into);
    t(<RecoveryId as Into<i32>>::into);
    t(SharedSecret::<Sha256>::new_with_context);
    t(SharedSecret::<Sha256>::new);
    t(<SharedSecret<Sha256> as AsRef<[u8]>>::as_ref);
    t(s::verify_with_context);
    t(s::verify);
    t(s::recover_with_context);
    t(s::recover);
    t(s::sign_with_context);
    t(s::sign);
}

pub fn roots_serde() {
    t(<PublicKey as serde::Serialize>::serialize::<sd::S0>);
    t(<PublicKey as serde::Deserialize<'static>>::deserialize::<sd::D0>);
}

/// Type-level witnesses (kept compiling on purpose).
pub fn witnesses() {
    fn send_sync<T: Send + Sync>() {}
    t(send_sync::<ECMultContext>);
    t(send_sync::<ECMultGenContext>);
    t(send_sync::<PublicKey>);
    t(send_sync::<SecretKey>);
    t(&s::ECMULT_CONTEXT);
    t(&s::ECMULT_GEN_CONTEXT);
    t(&AFFINE_G);
    t(&AFFINE_INFINITY);
    t(&JACOBIAN_INFINITY);
}
