//! Minimal hand-written bindings to libz3's C API.
#![allow(non_camel_case_types)]
use std::os::raw::{c_char, c_int, c_uint, c_void};
pub type Ctx = *mut c_void;
pub type Ast = *mut c_void;
pub type Sort = *mut c_void;
pub type Solver = *mut c_void;
pub type Model = *mut c_void;
pub type Params = *mut c_void;
pub type Cfg = *mut c_void;
pub type Sym = *mut c_void;

#[link(name = "z3")]
extern "C" {
    pub fn Z3_mk_config() -> Cfg;
    pub fn Z3_mk_context(c: Cfg) -> Ctx;
    pub fn Z3_del_context(c: Ctx);
    pub fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    pub fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
    pub fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    pub fn Z3_mk_int_sort(c: Ctx) -> Sort;
    pub fn Z3_mk_real_sort(c: Ctx) -> Sort;
    pub fn Z3_mk_const(c: Ctx, s: Sym, t: Sort) -> Ast;
    pub fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    pub fn Z3_mk_add(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    pub fn Z3_mk_mul(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    pub fn Z3_mk_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_le(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_ge(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    pub fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    pub fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    pub fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    pub fn Z3_mk_true(c: Ctx) -> Ast;
    pub fn Z3_mk_false(c: Ctx) -> Ast;
    pub fn Z3_mk_int2real(c: Ctx, a: Ast) -> Ast;
    pub fn Z3_mk_solver(c: Ctx) -> Solver;
    pub fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    pub fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    pub fn Z3_solver_push(c: Ctx, s: Solver);
    pub fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    pub fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    pub fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    pub fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    pub fn Z3_model_inc_ref(c: Ctx, m: Model);
    pub fn Z3_model_dec_ref(c: Ctx, m: Model);
    pub fn Z3_model_eval(c: Ctx, m: Model, t: Ast, compl: bool, v: *mut Ast) -> bool;
    pub fn Z3_get_numeral_int64(c: Ctx, v: Ast, i: *mut i64) -> bool;
    pub fn Z3_get_numeral_string(c: Ctx, v: Ast) -> *const c_char;
    pub fn Z3_mk_params(c: Ctx) -> Params;
    pub fn Z3_params_inc_ref(c: Ctx, p: Params);
    pub fn Z3_params_set_uint(c: Ctx, p: Params, k: Sym, v: c_uint);
    pub fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
    pub fn Z3_solver_to_string(c: Ctx, s: Solver) -> *const c_char;
    pub fn Z3_inc_ref(c: Ctx, a: Ast);
    pub fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, d: *mut c_uint, e: *mut c_uint);
}
