@fn row::csr_binop_csr
@props C09
@rlimit 400
@sub op: Binop<T, T2> ==> op: F
@sub T2: Nonzero> ==> T2: Nonzero, F: Fn(T, T) -> T2>
@sig
requires wfx(n_row as int, n_col as int, a_p@, a_j@, a_x@), wfx(n_row as int, n_col as int, b_p@, b_j@, b_x@),
    forall|x: T, y: T| #[trigger] op.requires((x, y)),    n_col <= isize::MAX, n_col <= I::imax(), n_row < usize::MAX,
    a_p[n_row as int].iv() + b_p[n_row as int].iv() <= I::imax(), a_p[n_row as int].iv() + b_p[n_row as int].iv() <= isize::MAX,
    old(c_p).len() >= n_row + 1, old(c_j).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    old(c_x).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
ensures final(c_p).len() == old(c_p).len(), final(c_j).len() == old(c_j).len(), final(c_x).len() == old(c_x).len(),
    wf(n_row as int, n_col as int, final(c_p)@, final(c_j)@),
    final(c_p)[n_row as int].iv() <= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    forall|k: int| 0 <= k < final(c_p)[n_row as int].iv() ==> (#[trigger] final(c_x)[k]).nz(),
    distinct_lines(n_row as int, final(c_p)@, final(c_j)@),
    strict_lines(n_row as int, a_p@, a_j@) && strict_lines(n_row as int, b_p@, b_j@) ==> strict_lines(n_row as int, final(c_p)@, final(c_j)@),
    forall|rel: spec_fn(C, C, T2) -> bool| op_rel::<T, T2, F>(op, rel) ==> #[trigger] rel_ok::<I, T, T2>(rel, n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, final(c_p)@, final(c_j)@, final(c_x)@),
@top
    let ghost gop = op;
@end
    proof {
        assert forall|rel: spec_fn(C, C, T2) -> bool| op_rel::<T, T2, F>(gop, rel) implies #[trigger] rel_ok::<I, T, T2>(rel, n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@) by {
            binop_rel::<I, T, T2, F>(gop, rel, n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@);
        }
        let tr = |a: C, b: C, v: T2| true;
        assert(op_rel::<T, T2, F>(gop, tr)); assert(rel_ok::<I, T, T2>(tr, n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@));
        rel_distinct::<I, T, T2>(tr, n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@);
    }

@fn row::csr_ne_csr
@props C09
@sub |a, b| ==> |a: T, b: T| -> (o: bool)
@sig
requires wfx(n_row as int, n_col as int, a_p@, a_j@, a_x@), wfx(n_row as int, n_col as int, b_p@, b_j@, b_x@),
    n_col <= isize::MAX, n_col <= I::imax(), n_row < usize::MAX,
    a_p[n_row as int].iv() + b_p[n_row as int].iv() <= I::imax(), a_p[n_row as int].iv() + b_p[n_row as int].iv() <= isize::MAX,
    old(c_p).len() >= n_row + 1, old(c_j).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    old(c_x).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
ensures final(c_p).len() == old(c_p).len(), final(c_j).len() == old(c_j).len(), final(c_x).len() == old(c_x).len(),
    wf(n_row as int, n_col as int, final(c_p)@, final(c_j)@),
    final(c_p)[n_row as int].iv() <= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    forall|k: int| 0 <= k < final(c_p)[n_row as int].iv() ==> (#[trigger] final(c_x)[k]).nz(),
    distinct_lines(n_row as int, final(c_p)@, final(c_j)@),
    strict_lines(n_row as int, a_p@, a_j@) && strict_lines(n_row as int, b_p@, b_j@) ==> strict_lines(n_row as int, final(c_p)@, final(c_j)@),
    bool_ok::<I, T>(|a: C, b: C| a != b, n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, final(c_p)@, final(c_j)@, final(c_x)@),
@closure 0
ensures o == (a.sv() != b.sv())
@top
    let ghost ff = |a: C, b: C| a != b;
@after csr_binop_csr 0
    proof {
        assert(rel_ok::<I, T, bool>(bool_rel(ff), n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@));
        rel_bool::<I, T>(ff, n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@);
    }

@fn row::csr_eq_csr
@props C09
@sub |a, b| ==> |a: T, b: T| -> (o: bool)
@sig
requires wfx(n_row as int, n_col as int, a_p@, a_j@, a_x@), wfx(n_row as int, n_col as int, b_p@, b_j@, b_x@),
    n_col <= isize::MAX, n_col <= I::imax(), n_row < usize::MAX,
    a_p[n_row as int].iv() + b_p[n_row as int].iv() <= I::imax(), a_p[n_row as int].iv() + b_p[n_row as int].iv() <= isize::MAX,
    old(c_p).len() >= n_row + 1, old(c_j).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    old(c_x).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
ensures final(c_p).len() == old(c_p).len(), final(c_j).len() == old(c_j).len(), final(c_x).len() == old(c_x).len(),
    wf(n_row as int, n_col as int, final(c_p)@, final(c_j)@),
    final(c_p)[n_row as int].iv() <= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    forall|k: int| 0 <= k < final(c_p)[n_row as int].iv() ==> (#[trigger] final(c_x)[k]).nz(),
    distinct_lines(n_row as int, final(c_p)@, final(c_j)@),
    strict_lines(n_row as int, a_p@, a_j@) && strict_lines(n_row as int, b_p@, b_j@) ==> strict_lines(n_row as int, final(c_p)@, final(c_j)@),
    bool_ok::<I, T>(|a: C, b: C| a == b, n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, final(c_p)@, final(c_j)@, final(c_x)@),
@closure 0
ensures o == (a.sv() == b.sv())
@top
    let ghost ff = |a: C, b: C| a == b;
@after csr_binop_csr 0
    proof {
        assert(rel_ok::<I, T, bool>(bool_rel(ff), n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@));
        rel_bool::<I, T>(ff, n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@);
    }

@fn row::csr_lt_csr
@props C09
@sub |a, b| ==> |a: T, b: T| -> (o: bool)
@sig
requires wfx(n_row as int, n_col as int, a_p@, a_j@, a_x@), wfx(n_row as int, n_col as int, b_p@, b_j@, b_x@),
    n_col <= isize::MAX, n_col <= I::imax(), n_row < usize::MAX,
    a_p[n_row as int].iv() + b_p[n_row as int].iv() <= I::imax(), a_p[n_row as int].iv() + b_p[n_row as int].iv() <= isize::MAX,
    old(c_p).len() >= n_row + 1, old(c_j).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    old(c_x).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
ensures final(c_p).len() == old(c_p).len(), final(c_j).len() == old(c_j).len(), final(c_x).len() == old(c_x).len(),
    wf(n_row as int, n_col as int, final(c_p)@, final(c_j)@),
    final(c_p)[n_row as int].iv() <= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    forall|k: int| 0 <= k < final(c_p)[n_row as int].iv() ==> (#[trigger] final(c_x)[k]).nz(),
    distinct_lines(n_row as int, final(c_p)@, final(c_j)@),
    strict_lines(n_row as int, a_p@, a_j@) && strict_lines(n_row as int, b_p@, b_j@) ==> strict_lines(n_row as int, final(c_p)@, final(c_j)@),
    bool_ok::<I, T>(|a: C, b: C| a.re < b.re, n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, final(c_p)@, final(c_j)@, final(c_x)@),
@closure 0
ensures o == (a.sv().re < b.sv().re)
@top
    broadcast use g_scord;
    let ghost ff = |a: C, b: C| a.re < b.re;
@after csr_binop_csr 0
    proof {
        assert(rel_ok::<I, T, bool>(bool_rel(ff), n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@));
        rel_bool::<I, T>(ff, n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@);
    }

@fn row::csr_le_csr
@props C09
@sub |a, b| ==> |a: T, b: T| -> (o: bool)
@sig
requires wfx(n_row as int, n_col as int, a_p@, a_j@, a_x@), wfx(n_row as int, n_col as int, b_p@, b_j@, b_x@),
    n_col <= isize::MAX, n_col <= I::imax(), n_row < usize::MAX,
    a_p[n_row as int].iv() + b_p[n_row as int].iv() <= I::imax(), a_p[n_row as int].iv() + b_p[n_row as int].iv() <= isize::MAX,
    old(c_p).len() >= n_row + 1, old(c_j).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    old(c_x).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
ensures final(c_p).len() == old(c_p).len(), final(c_j).len() == old(c_j).len(), final(c_x).len() == old(c_x).len(),
    wf(n_row as int, n_col as int, final(c_p)@, final(c_j)@),
    final(c_p)[n_row as int].iv() <= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    forall|k: int| 0 <= k < final(c_p)[n_row as int].iv() ==> (#[trigger] final(c_x)[k]).nz(),
    distinct_lines(n_row as int, final(c_p)@, final(c_j)@),
    strict_lines(n_row as int, a_p@, a_j@) && strict_lines(n_row as int, b_p@, b_j@) ==> strict_lines(n_row as int, final(c_p)@, final(c_j)@),
    bool_ok::<I, T>(|a: C, b: C| a.re <= b.re, n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, final(c_p)@, final(c_j)@, final(c_x)@),
@closure 0
ensures o == (a.sv().re <= b.sv().re)
@top
    broadcast use g_scord;
    let ghost ff = |a: C, b: C| a.re <= b.re;
@after csr_binop_csr 0
    proof {
        assert(rel_ok::<I, T, bool>(bool_rel(ff), n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@));
        rel_bool::<I, T>(ff, n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@);
    }

@fn row::csr_gt_csr
@props C09
@sub |a, b| ==> |a: T, b: T| -> (o: bool)
@sig
requires wfx(n_row as int, n_col as int, a_p@, a_j@, a_x@), wfx(n_row as int, n_col as int, b_p@, b_j@, b_x@),
    n_col <= isize::MAX, n_col <= I::imax(), n_row < usize::MAX,
    a_p[n_row as int].iv() + b_p[n_row as int].iv() <= I::imax(), a_p[n_row as int].iv() + b_p[n_row as int].iv() <= isize::MAX,
    old(c_p).len() >= n_row + 1, old(c_j).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    old(c_x).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
ensures final(c_p).len() == old(c_p).len(), final(c_j).len() == old(c_j).len(), final(c_x).len() == old(c_x).len(),
    wf(n_row as int, n_col as int, final(c_p)@, final(c_j)@),
    final(c_p)[n_row as int].iv() <= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    forall|k: int| 0 <= k < final(c_p)[n_row as int].iv() ==> (#[trigger] final(c_x)[k]).nz(),
    distinct_lines(n_row as int, final(c_p)@, final(c_j)@),
    strict_lines(n_row as int, a_p@, a_j@) && strict_lines(n_row as int, b_p@, b_j@) ==> strict_lines(n_row as int, final(c_p)@, final(c_j)@),
    bool_ok::<I, T>(|a: C, b: C| a.re > b.re, n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, final(c_p)@, final(c_j)@, final(c_x)@),
@closure 0
ensures o == (a.sv().re > b.sv().re)
@top
    broadcast use g_scord;
    let ghost ff = |a: C, b: C| a.re > b.re;
@after csr_binop_csr 0
    proof {
        assert(rel_ok::<I, T, bool>(bool_rel(ff), n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@));
        rel_bool::<I, T>(ff, n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@);
    }

@fn row::csr_ge_csr
@props C09
@sub |a, b| ==> |a: T, b: T| -> (o: bool)
@sig
requires wfx(n_row as int, n_col as int, a_p@, a_j@, a_x@), wfx(n_row as int, n_col as int, b_p@, b_j@, b_x@),
    n_col <= isize::MAX, n_col <= I::imax(), n_row < usize::MAX,
    a_p[n_row as int].iv() + b_p[n_row as int].iv() <= I::imax(), a_p[n_row as int].iv() + b_p[n_row as int].iv() <= isize::MAX,
    old(c_p).len() >= n_row + 1, old(c_j).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    old(c_x).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
ensures final(c_p).len() == old(c_p).len(), final(c_j).len() == old(c_j).len(), final(c_x).len() == old(c_x).len(),
    wf(n_row as int, n_col as int, final(c_p)@, final(c_j)@),
    final(c_p)[n_row as int].iv() <= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    forall|k: int| 0 <= k < final(c_p)[n_row as int].iv() ==> (#[trigger] final(c_x)[k]).nz(),
    distinct_lines(n_row as int, final(c_p)@, final(c_j)@),
    strict_lines(n_row as int, a_p@, a_j@) && strict_lines(n_row as int, b_p@, b_j@) ==> strict_lines(n_row as int, final(c_p)@, final(c_j)@),
    bool_ok::<I, T>(|a: C, b: C| a.re >= b.re, n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, final(c_p)@, final(c_j)@, final(c_x)@),
@closure 0
ensures o == (a.sv().re >= b.sv().re)
@top
    broadcast use g_scord;
    let ghost ff = |a: C, b: C| a.re >= b.re;
@after csr_binop_csr 0
    proof {
        assert(rel_ok::<I, T, bool>(bool_rel(ff), n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@));
        rel_bool::<I, T>(ff, n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@);
    }

@fn row::csr_mul_csr
@props C09
@sub |a, b| ==> |a: T, b: T| -> (o: T)
@sig
requires wfx(n_row as int, n_col as int, a_p@, a_j@, a_x@), wfx(n_row as int, n_col as int, b_p@, b_j@, b_x@),
    n_col <= isize::MAX, n_col <= I::imax(), n_row < usize::MAX,
    a_p[n_row as int].iv() + b_p[n_row as int].iv() <= I::imax(), a_p[n_row as int].iv() + b_p[n_row as int].iv() <= isize::MAX,
    old(c_p).len() >= n_row + 1, old(c_j).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    old(c_x).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
ensures final(c_p).len() == old(c_p).len(), final(c_j).len() == old(c_j).len(), final(c_x).len() == old(c_x).len(),
    wf(n_row as int, n_col as int, final(c_p)@, final(c_j)@),
    final(c_p)[n_row as int].iv() <= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    forall|k: int| 0 <= k < final(c_p)[n_row as int].iv() ==> (#[trigger] final(c_x)[k]).nz(),
    distinct_lines(n_row as int, final(c_p)@, final(c_j)@),
    strict_lines(n_row as int, a_p@, a_j@) && strict_lines(n_row as int, b_p@, b_j@) ==> strict_lines(n_row as int, final(c_p)@, final(c_j)@),
    num_ok::<I, T>(|a: C, b: C| a.mul(b), n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, final(c_p)@, final(c_j)@, final(c_x)@),
@closure 0
ensures o.sv() == (a.sv().mul(b.sv()))
@top
    let ghost ff = |a: C, b: C| a.mul(b);
@after csr_binop_csr 0
    proof {
        assert(rel_ok::<I, T, T>(num_rel::<T>(ff), n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@));
        rel_num::<I, T>(ff, n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@);
    }

@fn row::csr_div_csr
@props C09
@sub |a, b| ==> |a: T, b: T| -> (o: T)
@sig
requires wfx(n_row as int, n_col as int, a_p@, a_j@, a_x@), wfx(n_row as int, n_col as int, b_p@, b_j@, b_x@),
    n_col <= isize::MAX, n_col <= I::imax(), n_row < usize::MAX,
    a_p[n_row as int].iv() + b_p[n_row as int].iv() <= I::imax(), a_p[n_row as int].iv() + b_p[n_row as int].iv() <= isize::MAX,
    old(c_p).len() >= n_row + 1, old(c_j).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    old(c_x).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
ensures final(c_p).len() == old(c_p).len(), final(c_j).len() == old(c_j).len(), final(c_x).len() == old(c_x).len(),
    wf(n_row as int, n_col as int, final(c_p)@, final(c_j)@),
    final(c_p)[n_row as int].iv() <= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    forall|k: int| 0 <= k < final(c_p)[n_row as int].iv() ==> (#[trigger] final(c_x)[k]).nz(),
    distinct_lines(n_row as int, final(c_p)@, final(c_j)@),
    strict_lines(n_row as int, a_p@, a_j@) && strict_lines(n_row as int, b_p@, b_j@) ==> strict_lines(n_row as int, final(c_p)@, final(c_j)@),
    num_ok::<I, T>(|a: C, b: C| c_div(a, b), n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, final(c_p)@, final(c_j)@, final(c_x)@),
@closure 0
ensures o.sv() == (c_div(a.sv(), b.sv()))
@top
    let ghost ff = |a: C, b: C| c_div(a, b);
@after csr_binop_csr 0
    proof {
        assert(rel_ok::<I, T, T>(num_rel::<T>(ff), n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@));
        rel_num::<I, T>(ff, n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@);
    }

@fn row::csr_add_csr
@props C09
@sub |a, b| ==> |a: T, b: T| -> (o: T)
@sig
requires wfx(n_row as int, n_col as int, a_p@, a_j@, a_x@), wfx(n_row as int, n_col as int, b_p@, b_j@, b_x@),
    n_col <= isize::MAX, n_col <= I::imax(), n_row < usize::MAX,
    a_p[n_row as int].iv() + b_p[n_row as int].iv() <= I::imax(), a_p[n_row as int].iv() + b_p[n_row as int].iv() <= isize::MAX,
    old(c_p).len() >= n_row + 1, old(c_j).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    old(c_x).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
ensures final(c_p).len() == old(c_p).len(), final(c_j).len() == old(c_j).len(), final(c_x).len() == old(c_x).len(),
    wf(n_row as int, n_col as int, final(c_p)@, final(c_j)@),
    final(c_p)[n_row as int].iv() <= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    forall|k: int| 0 <= k < final(c_p)[n_row as int].iv() ==> (#[trigger] final(c_x)[k]).nz(),
    distinct_lines(n_row as int, final(c_p)@, final(c_j)@),
    strict_lines(n_row as int, a_p@, a_j@) && strict_lines(n_row as int, b_p@, b_j@) ==> strict_lines(n_row as int, final(c_p)@, final(c_j)@),
    num_ok::<I, T>(|a: C, b: C| a.add(b), n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, final(c_p)@, final(c_j)@, final(c_x)@),
@closure 0
ensures o.sv() == (a.sv().add(b.sv()))
@top
    let ghost ff = |a: C, b: C| a.add(b);
@after csr_binop_csr 0
    proof {
        assert(rel_ok::<I, T, T>(num_rel::<T>(ff), n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@));
        rel_num::<I, T>(ff, n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@);
    }

@fn row::csr_sub_csr
@props C09
@sub |a, b| ==> |a: T, b: T| -> (o: T)
@sig
requires wfx(n_row as int, n_col as int, a_p@, a_j@, a_x@), wfx(n_row as int, n_col as int, b_p@, b_j@, b_x@),
    n_col <= isize::MAX, n_col <= I::imax(), n_row < usize::MAX,
    a_p[n_row as int].iv() + b_p[n_row as int].iv() <= I::imax(), a_p[n_row as int].iv() + b_p[n_row as int].iv() <= isize::MAX,
    old(c_p).len() >= n_row + 1, old(c_j).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    old(c_x).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
ensures final(c_p).len() == old(c_p).len(), final(c_j).len() == old(c_j).len(), final(c_x).len() == old(c_x).len(),
    wf(n_row as int, n_col as int, final(c_p)@, final(c_j)@),
    final(c_p)[n_row as int].iv() <= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    forall|k: int| 0 <= k < final(c_p)[n_row as int].iv() ==> (#[trigger] final(c_x)[k]).nz(),
    distinct_lines(n_row as int, final(c_p)@, final(c_j)@),
    strict_lines(n_row as int, a_p@, a_j@) && strict_lines(n_row as int, b_p@, b_j@) ==> strict_lines(n_row as int, final(c_p)@, final(c_j)@),
    num_ok::<I, T>(|a: C, b: C| a.sub(b), n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, final(c_p)@, final(c_j)@, final(c_x)@),
@closure 0
ensures o.sv() == (a.sv().sub(b.sv()))
@top
    let ghost ff = |a: C, b: C| a.sub(b);
@after csr_binop_csr 0
    proof {
        assert(rel_ok::<I, T, T>(num_rel::<T>(ff), n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@));
        rel_num::<I, T>(ff, n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@);
    }

@fn row::csr_max_csr
@props C09
@sub |a, b| ==> |a: T, b: T| -> (o: T)
@sig
requires wfx(n_row as int, n_col as int, a_p@, a_j@, a_x@), wfx(n_row as int, n_col as int, b_p@, b_j@, b_x@),
    n_col <= isize::MAX, n_col <= I::imax(), n_row < usize::MAX,
    a_p[n_row as int].iv() + b_p[n_row as int].iv() <= I::imax(), a_p[n_row as int].iv() + b_p[n_row as int].iv() <= isize::MAX,
    old(c_p).len() >= n_row + 1, old(c_j).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    old(c_x).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
ensures final(c_p).len() == old(c_p).len(), final(c_j).len() == old(c_j).len(), final(c_x).len() == old(c_x).len(),
    wf(n_row as int, n_col as int, final(c_p)@, final(c_j)@),
    final(c_p)[n_row as int].iv() <= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    forall|k: int| 0 <= k < final(c_p)[n_row as int].iv() ==> (#[trigger] final(c_x)[k]).nz(),
    distinct_lines(n_row as int, final(c_p)@, final(c_j)@),
    strict_lines(n_row as int, a_p@, a_j@) && strict_lines(n_row as int, b_p@, b_j@) ==> strict_lines(n_row as int, final(c_p)@, final(c_j)@),
    num_ok::<I, T>(|a: C, b: C| if a.re > b.re { a } else { b }, n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, final(c_p)@, final(c_j)@, final(c_x)@),
@closure 0
ensures o.sv() == (if a.sv().re > b.sv().re { a.sv() } else { b.sv() })
@top
    broadcast use g_scord;
    let ghost ff = |a: C, b: C| if a.re > b.re { a } else { b };
@after csr_binop_csr 0
    proof {
        assert(rel_ok::<I, T, T>(num_rel::<T>(ff), n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@));
        rel_num::<I, T>(ff, n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@);
    }

@fn row::csr_min_csr
@props C09
@sub |a, b| ==> |a: T, b: T| -> (o: T)
@sig
requires wfx(n_row as int, n_col as int, a_p@, a_j@, a_x@), wfx(n_row as int, n_col as int, b_p@, b_j@, b_x@),
    n_col <= isize::MAX, n_col <= I::imax(), n_row < usize::MAX,
    a_p[n_row as int].iv() + b_p[n_row as int].iv() <= I::imax(), a_p[n_row as int].iv() + b_p[n_row as int].iv() <= isize::MAX,
    old(c_p).len() >= n_row + 1, old(c_j).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    old(c_x).len() >= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
ensures final(c_p).len() == old(c_p).len(), final(c_j).len() == old(c_j).len(), final(c_x).len() == old(c_x).len(),
    wf(n_row as int, n_col as int, final(c_p)@, final(c_j)@),
    final(c_p)[n_row as int].iv() <= a_p[n_row as int].iv() + b_p[n_row as int].iv(),
    forall|k: int| 0 <= k < final(c_p)[n_row as int].iv() ==> (#[trigger] final(c_x)[k]).nz(),
    distinct_lines(n_row as int, final(c_p)@, final(c_j)@),
    strict_lines(n_row as int, a_p@, a_j@) && strict_lines(n_row as int, b_p@, b_j@) ==> strict_lines(n_row as int, final(c_p)@, final(c_j)@),
    num_ok::<I, T>(|a: C, b: C| if a.re < b.re { a } else { b }, n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, final(c_p)@, final(c_j)@, final(c_x)@),
@closure 0
ensures o.sv() == (if a.sv().re < b.sv().re { a.sv() } else { b.sv() })
@top
    broadcast use g_scord;
    let ghost ff = |a: C, b: C| if a.re < b.re { a } else { b };
@after csr_binop_csr 0
    proof {
        assert(rel_ok::<I, T, T>(num_rel::<T>(ff), n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@));
        rel_num::<I, T>(ff, n_row as int, n_col as int, a_p@, a_j@, a_x@, b_p@, b_j@, b_x@, c_p@, c_j@, c_x@);
    }
