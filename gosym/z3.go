package main

/*
#cgo LDFLAGS: -lz3
#include <z3.h>
#include <stdlib.h>
static void noerr(Z3_context c, Z3_error_code e) {}
static Z3_context mkctx(int timeout_ms) {
	Z3_config cfg = Z3_mk_config();
	Z3_set_param_value(cfg, "model", "true");
	Z3_context c = Z3_mk_context_rc(cfg);
	Z3_del_config(cfg);
	Z3_set_error_handler(c, noerr);
	return c;
}
static Z3_solver mksolver(Z3_context c, int timeout_ms, int kind) {
	Z3_solver s;
	if (kind == 0) s = Z3_mk_simple_solver(c);
	else s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV"));
	Z3_solver_inc_ref(c, s);
	Z3_params p = Z3_mk_params(c);
	Z3_params_inc_ref(c, p);
	Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), timeout_ms);
	Z3_solver_set_params(c, s, p);
	Z3_params_dec_ref(c, p);
	return s;
}
static Z3_ast keep(Z3_context c, Z3_ast a) { if (a) Z3_inc_ref(c, a); return a; }
static Z3_ast mk2(Z3_context c, int op, Z3_ast a, Z3_ast b) {
	Z3_ast args[2]; args[0]=a; args[1]=b;
	switch (op) {
	case 3: return keep(c, Z3_mk_and(c, 2, args));
	case 4: return keep(c, Z3_mk_or(c, 2, args));
	case 6: return keep(c, Z3_mk_eq(c, a, b));
	case 7: return keep(c, Z3_mk_bvadd(c, a, b));
	case 8: return keep(c, Z3_mk_bvsub(c, a, b));
	case 9: return keep(c, Z3_mk_bvmul(c, a, b));
	case 10: return keep(c, Z3_mk_bvudiv(c, a, b));
	case 11: return keep(c, Z3_mk_bvurem(c, a, b));
	case 12: return keep(c, Z3_mk_bvsdiv(c, a, b));
	case 13: return keep(c, Z3_mk_bvsrem(c, a, b));
	case 14: return keep(c, Z3_mk_bvand(c, a, b));
	case 15: return keep(c, Z3_mk_bvor(c, a, b));
	case 16: return keep(c, Z3_mk_bvxor(c, a, b));
	case 17: return keep(c, Z3_mk_bvshl(c, a, b));
	case 18: return keep(c, Z3_mk_bvlshr(c, a, b));
	case 19: return keep(c, Z3_mk_bvashr(c, a, b));
	case 23: return keep(c, Z3_mk_bvult(c, a, b));
	case 24: return keep(c, Z3_mk_bvule(c, a, b));
	case 25: return keep(c, Z3_mk_bvslt(c, a, b));
	case 26: return keep(c, Z3_mk_bvsle(c, a, b));
	}
	return 0;
}
static Z3_ast mkconst(Z3_context c, int w, unsigned long long v) {
	if (w == 0) return keep(c, v ? Z3_mk_true(c) : Z3_mk_false(c));
	return keep(c, Z3_mk_unsigned_int64(c, v, Z3_mk_bv_sort(c, w)));
}
static Z3_ast mkvar(Z3_context c, int w, int idx) {
	Z3_sort s = w == 0 ? Z3_mk_bool_sort(c) : Z3_mk_bv_sort(c, w);
	return keep(c, Z3_mk_const(c, Z3_mk_int_symbol(c, idx*128+w), s));
}
static Z3_ast mknot(Z3_context c, Z3_ast a) { return keep(c, Z3_mk_not(c, a)); }
static Z3_ast mkite(Z3_context c, Z3_ast a, Z3_ast b, Z3_ast d) { return keep(c, Z3_mk_ite(c, a, b, d)); }
static Z3_ast mkextract(Z3_context c, int hi, int lo, Z3_ast a) { return keep(c, Z3_mk_extract(c, hi, lo, a)); }
static Z3_ast mkzext(Z3_context c, int n, Z3_ast a) { return keep(c, Z3_mk_zero_ext(c, n, a)); }
static Z3_ast mksext(Z3_context c, int n, Z3_ast a) { return keep(c, Z3_mk_sign_ext(c, n, a)); }
static Z3_ast mkproxy(Z3_context c, Z3_solver s, int idx, Z3_ast t) {
	Z3_ast args[2];
	Z3_ast p = keep(c, Z3_mk_const(c, Z3_mk_int_symbol(c, idx*128+127), Z3_mk_bool_sort(c)));
	args[0] = Z3_mk_not(c, p);
	Z3_inc_ref(c, args[0]);
	args[1] = t;
	Z3_ast cl = Z3_mk_or(c, 2, args);
	Z3_inc_ref(c, cl);
	Z3_solver_assert(c, s, cl);
	Z3_dec_ref(c, cl);
	Z3_dec_ref(c, args[0]);
	return p;
}
static int modelval(Z3_context c, Z3_model m, Z3_ast a, unsigned long long *out) {
	Z3_ast r = 0;
	if (!Z3_model_eval(c, m, a, 1, &r)) return 0;
	if (r == 0) return 0;
	if (Z3_get_bool_value(c, r) == Z3_L_TRUE) { *out = 1; return 1; }
	if (Z3_get_bool_value(c, r) == Z3_L_FALSE) { *out = 0; return 1; }
	uint64_t u = 0;
	if (!Z3_get_numeral_uint64(c, r, &u)) return 0;
	*out = u;
	return 1;
}
*/
import "C"

import (
	"fmt"
	"os"
	"path/filepath"
	"sync/atomic"
	"time"
	"unsafe"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

type Z3 struct {
	m       *TermMgr
	ctx     C.Z3_context
	s       C.Z3_solver
	stack   []*Term // asserted, one push each
	kind    int
	proxy   map[*Term]C.Z3_ast
	nproxy  int
	as      []C.Z3_ast
	queries int
	maxDur  time.Duration
	nsat    int
	nunsat  int
	nunk    int
	dur     time.Duration
	model   []uint64
}

const z3TimeoutMs = 30000

func (z *Z3) close() {
	C.Z3_solver_dec_ref(z.ctx, z.s)
	C.Z3_del_context(z.ctx)
}

func newZ3(m *TermMgr, kind int) *Z3 {
	z := &Z3{m: m}
	z.ctx = C.mkctx(C.int(z3TimeoutMs))
	z.kind = kind
	z.s = C.mksolver(z.ctx, C.int(z3TimeoutMs), C.int(kind))
	z.proxy = map[*Term]C.Z3_ast{}
	return z
}

// fresh starts over with an empty solver.
func (z *Z3) fresh() {
	for _, p := range z.proxy {
		C.Z3_dec_ref(z.ctx, p)
	}
	z.proxy = map[*Term]C.Z3_ast{}
	C.Z3_solver_dec_ref(z.ctx, z.s)
	z.s = C.mksolver(z.ctx, C.int(z3TimeoutMs), C.int(z.kind))
}

// lit returns a literal that implies t.
func (z *Z3) lit(t *Term) C.Z3_ast {
	if p, ok := z.proxy[t]; ok {
		return p
	}
	z.nproxy++
	p := C.mkproxy(z.ctx, z.s, C.int(z.nproxy), z.ast(t))
	z.proxy[t] = p
	return p
}

func (z *Z3) ast(t *Term) C.Z3_ast {
	if t.z != 0 {
		return C.Z3_ast(unsafe.Pointer(t.z))
	}
	var r C.Z3_ast
	switch t.op {
	case OConst:
		r = C.mkconst(z.ctx, C.int(t.w), C.ulonglong(t.k))
	case OTab:
		t.z = uintptr(unsafe.Pointer(z.ast(z.m.expand(t))))
		return C.Z3_ast(unsafe.Pointer(t.z))
	case OVar:
		r = C.mkvar(z.ctx, C.int(t.w), C.int(t.k))
	case ONot:
		r = C.mknot(z.ctx, z.ast(t.a))
	case OIte:
		r = C.mkite(z.ctx, z.ast(t.a), z.ast(t.b), z.ast(t.c))
	case OExtract:
		r = C.mkextract(z.ctx, C.int(t.k>>8), C.int(t.k&0xff), z.ast(t.a))
	case OZext:
		r = C.mkzext(z.ctx, C.int(t.w-t.a.w), z.ast(t.a))
	case OSext:
		r = C.mksext(z.ctx, C.int(t.w-t.a.w), z.ast(t.a))
	default:
		r = C.mk2(z.ctx, C.int(t.op), z.ast(t.a), z.ast(t.b))
	}
	t.z = uintptr(unsafe.Pointer(r))
	return r
}

// sync makes the solver's assertion stack equal to pc.
func (z *Z3) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(z.stack) && pc[n] == z.stack[n] {
		n++
	}
	if k := len(z.stack) - n; k > 0 {
		C.Z3_solver_pop(z.ctx, z.s, C.uint(k))
		z.stack = z.stack[:n]
	}
	for _, t := range pc[n:] {
		C.Z3_solver_push(z.ctx, z.s)
		C.Z3_solver_assert(z.ctx, z.s, z.ast(t))
		z.stack = append(z.stack, t)
	}
}

// Check decides pc && extra. On Sat z.model holds an assignment of vars.
func (z *Z3) Check(pc []*Term, extra *Term, vars []*Term) SatResult {
	t0 := time.Now()
	if z.kind != 2 {
		z.sync(pc)
		C.Z3_solver_push(z.ctx, z.s)
		if extra != nil {
			C.Z3_solver_assert(z.ctx, z.s, z.ast(extra))
		}
	}
	var r C.Z3_lbool
	if z.kind == 2 {
		if len(z.proxy) > 4000 {
			z.fresh()
		}
		z.as = z.as[:0]
		for _, t := range pc {
			z.as = append(z.as, z.lit(t))
		}
		if extra != nil {
			z.as = append(z.as, z.lit(extra))
		}
		var ptr *C.Z3_ast
		if len(z.as) > 0 {
			ptr = &z.as[0]
		}
		r = C.Z3_solver_check_assumptions(z.ctx, z.s, C.uint(len(z.as)), ptr)
	} else {
		r = C.Z3_solver_check(z.ctx, z.s)
	}
	z.queries++
	res := Unknown
	switch r {
	case C.Z3_L_TRUE:
		res = Sat
		z.nsat++
		md := C.Z3_solver_get_model(z.ctx, z.s)
		C.Z3_model_inc_ref(z.ctx, md)
		z.model = make([]uint64, len(vars))
		for i, v := range vars {
			if v == nil {
				continue
			}
			var out C.ulonglong
			if C.modelval(z.ctx, md, z.ast(v), &out) == 0 {
				res = Unknown
			}
			z.model[i] = uint64(out)
		}
		C.Z3_model_dec_ref(z.ctx, md)
	case C.Z3_L_FALSE:
		res = Unsat
		z.nunsat++
	default:
		z.nunk++
	}
	if z.kind != 2 {
		C.Z3_solver_pop(z.ctx, z.s, 1)
	}
	d := time.Since(t0)
	z.dur += d
	if d > z.maxDur {
		z.maxDur = d
	}
	return res
}

var dumpN atomic.Int64

// dumpSMT writes a query as SMT-LIB 2, for checking with another solver.
func dumpSMT(m *TermMgr, dir string, pc []*Term, extra *Term) {
	n := dumpN.Add(1)
	if n > 400 {
		return
	}
	os.WriteFile(filepath.Join(dir, "q"+fmt.Sprint(n)+".smt2"), []byte(m.SMT2(append(append([]*Term(nil), pc...), extra))), 0o666)
}

var z3Kind = func() int { n := 1; fmt.Sscan(os.Getenv("GOSYM_Z3"), &n); return n }()
