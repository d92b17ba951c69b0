//! Tiny FFI surface for libz3's C API.
#![allow(non_camel_case_types, dead_code)]
use std::ffi::c_void;
pub type P = *mut c_void;
extern "C" {
    pub fn Z3_mk_config() -> P;
    pub fn Z3_mk_context(c: P) -> P;
    pub fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, i32)>);
    pub fn Z3_mk_int_sort(c: P) -> P;
    pub fn Z3_mk_int64(c: P, v: i64, ty: P) -> P;
    pub fn Z3_mk_add(c: P, n: u32, a: *const P) -> P;
    pub fn Z3_mk_sub(c: P, n: u32, a: *const P) -> P;
    pub fn Z3_mk_mul(c: P, n: u32, a: *const P) -> P;
    pub fn Z3_mk_div(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_mod(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_le(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bv_sort(c: P, sz: u32) -> P;
    pub fn Z3_mk_string_symbol(c: P, s: *const i8) -> P;
    pub fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    pub fn Z3_mk_numeral(c: P, n: *const i8, ty: P) -> P;
    pub fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    pub fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_not(c: P, a: P) -> P;
    pub fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    pub fn Z3_mk_and(c: P, n: u32, a: *const P) -> P;
    pub fn Z3_mk_or(c: P, n: u32, a: *const P) -> P;
    pub fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_true(c: P) -> P;
    pub fn Z3_mk_false(c: P) -> P;
    pub fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    pub fn Z3_mk_extract(c: P, hi: u32, lo: u32, a: P) -> P;
    pub fn Z3_mk_zero_ext(c: P, n: u32, a: P) -> P;
    pub fn Z3_mk_sign_ext(c: P, n: u32, a: P) -> P;
    pub fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    pub fn Z3_mk_simple_solver(c: P) -> P;
    pub fn Z3_solver_inc_ref(c: P, s: P);
    pub fn Z3_solver_dec_ref(c: P, s: P);
    pub fn Z3_solver_reset(c: P, s: P);
    pub fn Z3_solver_push(c: P, s: P);
    pub fn Z3_solver_pop(c: P, s: P, n: u32);
    pub fn Z3_solver_assert(c: P, s: P, a: P);
    pub fn Z3_solver_check(c: P, s: P) -> i32;
    pub fn Z3_solver_get_model(c: P, s: P) -> P;
    pub fn Z3_solver_set_params(c: P, s: P, p: P);
    pub fn Z3_mk_params(c: P) -> P;
    pub fn Z3_params_inc_ref(c: P, p: P);
    pub fn Z3_params_set_uint(c: P, p: P, k: P, v: u32);
    pub fn Z3_model_inc_ref(c: P, m: P);
    pub fn Z3_model_dec_ref(c: P, m: P);
    pub fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    pub fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    pub fn Z3_ast_to_string(c: P, a: P) -> *const i8;
    pub fn Z3_solver_to_string(c: P, s: P) -> *const i8;
    pub fn Z3_set_ast_print_mode(c: P, m: i32);
    pub fn Z3_get_error_msg(c: P, e: i32) -> *const i8;
}
