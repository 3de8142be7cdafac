@fn csr_ops::neg(CSR<I,T>)
@props C14
@map 0 T ; T
ensures vpo.sv() == vpm.sv().neg()
@extra
use core::ops::Neg;
@top
    broadcast use g_neg;
@sig
requires csr_ok(slf),
ensures csr_ok(res), res.rows == slf.rows, res.cols == slf.cols, res.rowptr@ == slf.rowptr@, res.colidx@ == slf.colidx@, res.values.len() == slf.values.len(),
    forall|k: int| 0 <= k < slf.values.len() ==> (#[trigger] res.values[k]).sv() == slf.values[k].sv().neg(),

@fn csr_ops::add(CSR<I,T>,CSR<I,T>)
@props C08 C17
@sig
requires csr_ok(slf), csr_ok(rhs), slf.rows == rhs.rows, slf.cols == rhs.cols, csr_nnz(slf) + csr_nnz(rhs) <= imx::<I>(),
ensures csr_ok(res), res.rows == slf.rows, res.cols == slf.cols, distinct_lines(res.rows as int, res.rowptr@, res.colidx@), csr_canon(slf) && csr_canon(rhs) ==> csr_canon(res),
    forall|k: int| 0 <= k < csr_nnz(res) ==> (#[trigger] res.values[k]).sv() != C::zero(),
    forall|r: int, c: int| 0 <= r < res.rows && 0 <= c < res.cols ==> #[trigger] csr_at(res, r, c) == csr_at(slf, r, c).add(csr_at(rhs, r, c)),
@after csr_add_csr 0
    let ghost ff = |a: C, b: C| a.add(b);
    proof {
        num_all::<I, T>(ff, slf.rows as int, slf.cols as int, slf.rowptr@, slf.colidx@, slf.values@, rhs.rowptr@, rhs.colidx@, rhs.values@, rowptr@, colidx@, values@);
        assert forall|r: int, c: int| 0 <= r < slf.rows && 0 <= c < slf.cols implies #[trigger] ent(rowptr@, colidx@, values@, r, c) == csr_at(slf, r, c).add(csr_at(rhs, r, c)) by {
            assert(ent(rowptr@, colidx@, values@, r, c) == ff(csr_at(slf, r, c), csr_at(rhs, r, c))); }
    }

@fn csr_ops::add(CSR<I,T>,CSR<I,T>)##any
@props C17
@panics
@sig
requires csr_ok(slf), csr_ok(rhs), slf.rows == rhs.rows && slf.cols == rhs.cols ==> csr_nnz(slf) + csr_nnz(rhs) <= imx::<I>(), csr_nnz(slf) + csr_nnz(rhs) <= usize::MAX,
ensures slf.rows == rhs.rows && slf.cols == rhs.cols,

@fn csr_ops::sub(CSR<I,T>,CSR<I,T>)
@props C08 C17
@sig
requires csr_ok(slf), csr_ok(rhs), slf.rows == rhs.rows, slf.cols == rhs.cols, csr_nnz(slf) + csr_nnz(rhs) <= imx::<I>(),
ensures csr_ok(res), res.rows == slf.rows, res.cols == slf.cols, distinct_lines(res.rows as int, res.rowptr@, res.colidx@), csr_canon(slf) && csr_canon(rhs) ==> csr_canon(res),
    forall|k: int| 0 <= k < csr_nnz(res) ==> (#[trigger] res.values[k]).sv() != C::zero(),
    forall|r: int, c: int| 0 <= r < res.rows && 0 <= c < res.cols ==> #[trigger] csr_at(res, r, c) == csr_at(slf, r, c).sub(csr_at(rhs, r, c)),
@after csr_sub_csr 0
    let ghost ff = |a: C, b: C| a.sub(b);
    proof {
        num_all::<I, T>(ff, slf.rows as int, slf.cols as int, slf.rowptr@, slf.colidx@, slf.values@, rhs.rowptr@, rhs.colidx@, rhs.values@, rowptr@, colidx@, values@);
        assert forall|r: int, c: int| 0 <= r < slf.rows && 0 <= c < slf.cols implies #[trigger] ent(rowptr@, colidx@, values@, r, c) == csr_at(slf, r, c).sub(csr_at(rhs, r, c)) by {
            assert(ent(rowptr@, colidx@, values@, r, c) == ff(csr_at(slf, r, c), csr_at(rhs, r, c))); }
    }

@fn csr_ops::sub(CSR<I,T>,CSR<I,T>)##any
@props C17
@panics
@sig
requires csr_ok(slf), csr_ok(rhs), slf.rows == rhs.rows && slf.cols == rhs.cols ==> csr_nnz(slf) + csr_nnz(rhs) <= imx::<I>(), csr_nnz(slf) + csr_nnz(rhs) <= usize::MAX,
ensures slf.rows == rhs.rows && slf.cols == rhs.cols,

@fn csr_ops::mul(CSR<I,T>,CSR<I,T>)
@props C07 C17
@sig
requires csr_ok(slf), csr_ok(rhs), slf.cols == rhs.rows, matcnt(slf.rowptr@, slf.colidx@, rhs.rowptr@, rhs.colidx@, rhs.cols as int, slf.rows as int) <= imx::<I>(),
ensures csr_ok(res) && res.rows == slf.rows && res.cols == rhs.cols && distinct_lines(res.rows as int, res.rowptr@, res.colidx@) &&
        (forall|k: int| 0 <= k < csr_nnz(res) ==> (#[trigger] res.values[k]).sv() != C::zero()) &&
        (forall|r: int, k: int| 0 <= r < res.rows && 0 <= k < res.cols ==> #[trigger] csr_at(res, r, k) ==
            prod(slf.colidx@, slf.values@, rhs.rowptr@, rhs.colidx@, rhs.values@, slf.rowptr[r].iv(), slf.rowptr[r + 1].iv(), slf.cols as int, k)),

@fn csr_ops::mul(CSR<I,T>,CSR<I,T>)##any
@props C17
@panics
@sig
requires csr_ok(slf), csr_ok(rhs), slf.cols == rhs.rows ==> matcnt(slf.rowptr@, slf.colidx@, rhs.rowptr@, rhs.colidx@, rhs.cols as int, slf.rows as int) <= imx::<I>(),
ensures slf.cols == rhs.rows,

@fn csr_ops::mul(CSR<I,T>,T)
@props C14
@map 0 T ; T
ensures vpo.sv() == vpm.sv().mul(rhs.sv())
@sig
requires csr_ok(slf),
ensures csr_ok(res), res.rows == slf.rows, res.cols == slf.cols, res.rowptr@ == slf.rowptr@, res.colidx@ == slf.colidx@, res.values.len() == slf.values.len(),
    forall|k: int| 0 <= k < slf.values.len() ==> (#[trigger] res.values[k]).sv() == slf.values[k].sv().mul(rhs.sv()),

@fn csr_ops::mul(Complex64,CSR<I,Complex64>)
@props C14
@sub Complex64 ==> T
@sub <I: Integer> ==> <I: Integer, T: Scalar>
@map 0 T ; T
ensures vpo.sv() == slf.sv().mul(vpm.sv())
@sig
requires csr_ok(rhs),
ensures csr_ok(res), res.rows == rhs.rows, res.cols == rhs.cols, res.rowptr@ == rhs.rowptr@, res.colidx@ == rhs.colidx@, res.values.len() == rhs.values.len(),
    forall|k: int| 0 <= k < rhs.values.len() ==> (#[trigger] res.values[k]).sv() == slf.sv().mul(rhs.values[k].sv()),

@fn csr_ops::mul(CSR<I,T>,&[T])
@props C06 C17
@sig
requires csr_ok(slf), rhs.len() == slf.cols,
ensures res.len() == slf.rows && (forall|i: int| 0 <= i < slf.rows ==> (#[trigger] res[i]).sv() == linedot(slf.colidx@, slf.values@, rhs@, slf.rowptr[i].iv(), slf.rowptr[i + 1].iv(), slf.cols as int)),

@fn csr_ops::mul(CSR<I,T>,&[T])##any
@props C17
@panics
@sig
requires csr_ok(slf),
ensures rhs.len() == slf.cols,

@fn csr_ops::mul(CSR<I,T>,&Vec<T>)
@props C06 C17
@sig
requires csr_ok(slf), rhs.len() == slf.cols,
ensures res.len() == slf.rows && (forall|i: int| 0 <= i < slf.rows ==> (#[trigger] res[i]).sv() == linedot(slf.colidx@, slf.values@, rhs@, slf.rowptr[i].iv(), slf.rowptr[i + 1].iv(), slf.cols as int)),

@fn csr_ops::mul(CSR<I,T>,&Vec<T>)##any
@props C17
@panics
@sig
requires csr_ok(slf),
ensures rhs.len() == slf.cols,

@fn csc_ops::neg(CSC<I,T>)
@props C14
@map 0 T ; T
ensures vpo.sv() == vpm.sv().neg()
@extra
use core::ops::Neg;
@top
    broadcast use g_neg;
@sig
requires csc_ok(slf),
ensures csc_ok(res), res.rows == slf.rows, res.cols == slf.cols, res.colptr@ == slf.colptr@, res.rowidx@ == slf.rowidx@, res.values.len() == slf.values.len(),
    forall|k: int| 0 <= k < slf.values.len() ==> (#[trigger] res.values[k]).sv() == slf.values[k].sv().neg(),

@fn csc_ops::add(CSC<I,T>,CSC<I,T>)
@props C08 C17
@sig
requires csc_ok(slf), csc_ok(rhs), slf.rows == rhs.rows, slf.cols == rhs.cols, csc_nnz(slf) + csc_nnz(rhs) <= imx::<I>(),
ensures csc_ok(res), res.rows == slf.rows, res.cols == slf.cols, distinct_lines(res.cols as int, res.colptr@, res.rowidx@), csc_canon(slf) && csc_canon(rhs) ==> csc_canon(res),
    forall|k: int| 0 <= k < csc_nnz(res) ==> (#[trigger] res.values[k]).sv() != C::zero(),
    forall|r: int, c: int| 0 <= r < res.rows && 0 <= c < res.cols ==> #[trigger] csc_at(res, r, c) == csc_at(slf, r, c).add(csc_at(rhs, r, c)),
@after csr_add_csr 0
    let ghost ff = |a: C, b: C| a.add(b);
    proof {
        num_all::<I, T>(ff, slf.cols as int, slf.rows as int, slf.colptr@, slf.rowidx@, slf.values@, rhs.colptr@, rhs.rowidx@, rhs.values@, colptr@, rowidx@, values@);
        assert forall|r: int, c: int| 0 <= r < slf.rows && 0 <= c < slf.cols implies #[trigger] ent(colptr@, rowidx@, values@, c, r) == csc_at(slf, r, c).add(csc_at(rhs, r, c)) by {
            assert(ent(colptr@, rowidx@, values@, c, r) == ff(csc_at(slf, r, c), csc_at(rhs, r, c))); }
    }

@fn csc_ops::add(CSC<I,T>,CSC<I,T>)##any
@props C17
@panics
@sig
requires csc_ok(slf), csc_ok(rhs), slf.rows == rhs.rows && slf.cols == rhs.cols ==> csc_nnz(slf) + csc_nnz(rhs) <= imx::<I>(), csc_nnz(slf) + csc_nnz(rhs) <= usize::MAX,
ensures slf.rows == rhs.rows && slf.cols == rhs.cols,

@fn csc_ops::sub(CSC<I,T>,CSC<I,T>)
@props C08 C17
@sig
requires csc_ok(slf), csc_ok(rhs), slf.rows == rhs.rows, slf.cols == rhs.cols, csc_nnz(slf) + csc_nnz(rhs) <= imx::<I>(),
ensures csc_ok(res), res.rows == slf.rows, res.cols == slf.cols, distinct_lines(res.cols as int, res.colptr@, res.rowidx@), csc_canon(slf) && csc_canon(rhs) ==> csc_canon(res),
    forall|k: int| 0 <= k < csc_nnz(res) ==> (#[trigger] res.values[k]).sv() != C::zero(),
    forall|r: int, c: int| 0 <= r < res.rows && 0 <= c < res.cols ==> #[trigger] csc_at(res, r, c) == csc_at(slf, r, c).sub(csc_at(rhs, r, c)),
@after csr_sub_csr 0
    let ghost ff = |a: C, b: C| a.sub(b);
    proof {
        num_all::<I, T>(ff, slf.cols as int, slf.rows as int, slf.colptr@, slf.rowidx@, slf.values@, rhs.colptr@, rhs.rowidx@, rhs.values@, colptr@, rowidx@, values@);
        assert forall|r: int, c: int| 0 <= r < slf.rows && 0 <= c < slf.cols implies #[trigger] ent(colptr@, rowidx@, values@, c, r) == csc_at(slf, r, c).sub(csc_at(rhs, r, c)) by {
            assert(ent(colptr@, rowidx@, values@, c, r) == ff(csc_at(slf, r, c), csc_at(rhs, r, c))); }
    }

@fn csc_ops::sub(CSC<I,T>,CSC<I,T>)##any
@props C17
@panics
@sig
requires csc_ok(slf), csc_ok(rhs), slf.rows == rhs.rows && slf.cols == rhs.cols ==> csc_nnz(slf) + csc_nnz(rhs) <= imx::<I>(), csc_nnz(slf) + csc_nnz(rhs) <= usize::MAX,
ensures slf.rows == rhs.rows && slf.cols == rhs.cols,

@fn csc_ops::mul(CSC<I,T>,CSC<I,T>)
@props C07 C17
@sig
requires csc_ok(slf), csc_ok(rhs), slf.cols == rhs.rows, matcnt(rhs.colptr@, rhs.rowidx@, slf.colptr@, slf.rowidx@, slf.rows as int, rhs.cols as int) <= imx::<I>(),
ensures csc_ok(res) && res.rows == slf.rows && res.cols == rhs.cols && distinct_lines(res.cols as int, res.colptr@, res.rowidx@) &&
        (forall|k: int| 0 <= k < csc_nnz(res) ==> (#[trigger] res.values[k]).sv() != C::zero()) &&
        (forall|r: int, k: int| 0 <= r < res.rows && 0 <= k < res.cols ==> #[trigger] csc_at(res, r, k) ==
            prod(rhs.rowidx@, rhs.values@, slf.colptr@, slf.rowidx@, slf.values@, rhs.colptr[k].iv(), rhs.colptr[k + 1].iv(), slf.cols as int, r)),

@fn csc_ops::mul(CSC<I,T>,CSC<I,T>)##any
@props C17
@panics
@sig
requires csc_ok(slf), csc_ok(rhs), slf.cols == rhs.rows ==> matcnt(rhs.colptr@, rhs.rowidx@, slf.colptr@, slf.rowidx@, slf.rows as int, rhs.cols as int) <= imx::<I>(),
ensures slf.cols == rhs.rows,

@fn csc_ops::mul(CSC<I,T>,CSR<I,T>)
@props C07 C17
@extra
/// z is a CSC matrix with the dimensions and stored values of a
pub open spec fn csc_form<I: Integer, T: Scalar>(a: CSR<I, T>, z: CSC<I, T>) -> bool {
    csc_ok(z) && z.rows == a.rows && z.cols == a.cols && forall|r: int, c: int| 0 <= r < a.rows && 0 <= c < a.cols ==> #[trigger] csc_vals(z, r, c) == csr_vals(a, r, c)
}
/// sum over j in 0..m of right value (j, k) times left value (r, j)
pub open spec fn csprod<I: Integer, T: Scalar>(a: CSC<I, T>, b: CSR<I, T>, r: int, m: int, k: int) -> C decreases m {
    if m <= 0 { C::zero() } else { csprod(a, b, r, m - 1, k).add(csr_at(b, m - 1, k).mul(csc_at(a, r, m - 1))) }
}
pub proof fn csprod_is<I: Integer, T: Scalar>(a: CSC<I, T>, b: CSR<I, T>, z: CSC<I, T>, r: int, m: int, k: int)
    requires m <= b.rows, 0 <= k < b.cols, z.rows == b.rows, z.cols == b.cols, forall|r: int, c: int| 0 <= r < b.rows && 0 <= c < b.cols ==> #[trigger] csc_at(z, r, c) == csr_at(b, r, c)
    ensures csprod(a, b, r, m, k) == prod(z.rowidx@, z.values@, a.colptr@, a.rowidx@, a.values@, z.colptr[k].iv(), z.colptr[k + 1].iv(), m, r)
    decreases m
{
    if m > 0 { csprod_is(a, b, z, r, m - 1, k); assert(csc_at(z, m - 1, k) == csr_at(b, m - 1, k)); }
}
@sig
requires csc_ok(slf), csr_ok(rhs), slf.cols == rhs.rows, forall|z: CSC<I, T>| #[trigger] csc_form(rhs, z) ==> matcnt(z.colptr@, z.rowidx@, slf.colptr@, slf.rowidx@, slf.rows as int, z.cols as int) <= imx::<I>(),
ensures csc_ok(res), res.rows == slf.rows, res.cols == rhs.cols, distinct_lines(res.cols as int, res.colptr@, res.rowidx@),
    forall|k: int| 0 <= k < csc_nnz(res) ==> (#[trigger] res.values[k]).sv() != C::zero(),
    forall|r: int, k: int| 0 <= r < res.rows && 0 <= k < res.cols ==> #[trigger] csc_at(res, r, k) == csprod(slf, rhs, r, slf.cols as int, k),
@end
    proof {
        assert forall|z: CSC<I, T>, r: int, k: int| csc_ok(z) && z.rows == rhs.rows && z.cols == rhs.cols && (forall|r: int, c: int| 0 <= r < rhs.rows && 0 <= c < rhs.cols ==> #[trigger] csc_at(z, r, c) == csr_at(rhs, r, c)) && 0 <= k < rhs.cols
            implies csprod(slf, rhs, r, slf.cols as int, k) == #[trigger] prod(z.rowidx@, z.values@, slf.colptr@, slf.rowidx@, slf.values@, z.colptr[k].iv(), z.colptr[k + 1].iv(), slf.cols as int, r) by { csprod_is(slf, rhs, z, r, slf.cols as int, k); }
        assert forall|z: CSC<I, T>| #[trigger] csc_ok(z) && z.rows == rhs.rows && z.cols == rhs.cols && (forall|r: int, c: int| 0 <= r < rhs.rows && 0 <= c < rhs.cols ==> #[trigger] csc_vals(z, r, c) == csr_vals(rhs, r, c)) implies csc_form(rhs, z) by {}
    }

@fn csc_ops::mul(CSC<I,T>,CSR<I,T>)##any
@props C17
@panics
@extra
pub open spec fn csc_form<I: Integer, T: Scalar>(a: CSR<I, T>, z: CSC<I, T>) -> bool {
    csc_ok(z) && z.rows == a.rows && z.cols == a.cols && forall|r: int, c: int| 0 <= r < a.rows && 0 <= c < a.cols ==> #[trigger] csc_vals(z, r, c) == csr_vals(a, r, c)
}
@sig
requires csc_ok(slf), csr_ok(rhs), slf.cols == rhs.rows ==> forall|z: CSC<I, T>| #[trigger] csc_form(rhs, z) ==> matcnt(z.colptr@, z.rowidx@, slf.colptr@, slf.rowidx@, slf.rows as int, z.cols as int) <= imx::<I>(),
ensures slf.cols == rhs.rows,
@end
    proof {
        assert forall|z: CSC<I, T>| #[trigger] csc_ok(z) && z.rows == rhs.rows && z.cols == rhs.cols && (forall|r: int, c: int| 0 <= r < rhs.rows && 0 <= c < rhs.cols ==> #[trigger] csc_vals(z, r, c) == csr_vals(rhs, r, c)) implies csc_form(rhs, z) by {}
    }

@fn csc_ops::mul(CSC<I,T>,T)
@props C14
@map 0 T ; T
ensures vpo.sv() == vpm.sv().mul(rhs.sv())
@sig
requires csc_ok(slf),
ensures csc_ok(res), res.rows == slf.rows, res.cols == slf.cols, res.colptr@ == slf.colptr@, res.rowidx@ == slf.rowidx@, res.values.len() == slf.values.len(),
    forall|k: int| 0 <= k < slf.values.len() ==> (#[trigger] res.values[k]).sv() == slf.values[k].sv().mul(rhs.sv()),

@fn csc_ops::mul(Complex64,CSC<I,Complex64>)
@props C14
@sub Complex64 ==> T
@sub <I: Integer> ==> <I: Integer, T: Scalar>
@map 0 T ; T
ensures vpo.sv() == slf.sv().mul(vpm.sv())
@sig
requires csc_ok(rhs),
ensures csc_ok(res), res.rows == rhs.rows, res.cols == rhs.cols, res.colptr@ == rhs.colptr@, res.rowidx@ == rhs.rowidx@, res.values.len() == rhs.values.len(),
    forall|k: int| 0 <= k < rhs.values.len() ==> (#[trigger] res.values[k]).sv() == slf.sv().mul(rhs.values[k].sv()),

@fn csc_ops::mul(CSC<I,T>,&[T])
@props C06 C17
@sig
requires csc_ok(slf), rhs.len() == slf.cols,
ensures res.len() == slf.rows && (forall|i: int| 0 <= i < slf.rows ==> (#[trigger] res[i]).sv() == coldot(slf.colptr@, slf.rowidx@, slf.values@, rhs@, slf.cols as int, i)),

@fn csc_ops::mul(CSC<I,T>,&[T])##any
@props C17
@panics
@sig
requires csc_ok(slf),
ensures rhs.len() == slf.cols,

@fn csc_ops::mul(CSC<I,T>,&Vec<T>)
@props C06 C17
@sig
requires csc_ok(slf), rhs.len() == slf.cols,
ensures res.len() == slf.rows && (forall|i: int| 0 <= i < slf.rows ==> (#[trigger] res[i]).sv() == coldot(slf.colptr@, slf.rowidx@, slf.values@, rhs@, slf.cols as int, i)),

@fn csc_ops::mul(CSC<I,T>,&Vec<T>)##any
@props C17
@panics
@sig
requires csc_ok(slf),
ensures rhs.len() == slf.cols,

@fn coo_ops::neg(Coo<I,T>)
@props C14
@map 0 T ; T
ensures vpo.sv() == vpm.sv().neg()
@extra
use core::ops::Neg;
@top
    broadcast use g_neg;
@sig
requires coo_ok(slf),
ensures coo_ok(res), res.rows == slf.rows, res.cols == slf.cols, res.rowidx@ == slf.rowidx@, res.colidx@ == slf.colidx@, res.values.len() == slf.values.len(),
    forall|k: int| 0 <= k < slf.values.len() ==> (#[trigger] res.values[k]).sv() == slf.values[k].sv().neg(),

@fn coo_ops::add(Coo<I,T>,Coo<I,T>)
@props C08 C17
@sig
requires coo_ok(slf), coo_ok(rhs), slf.rows == rhs.rows, slf.cols == rhs.cols, slf.values.len() + rhs.values.len() <= I::imax(), slf.values.len() + rhs.values.len() <= isize::MAX,
ensures csr_ok(res), res.rows == slf.rows, res.cols == slf.cols, csr_canon(res),
    forall|r: int, c: int| 0 <= r < res.rows && 0 <= c < res.cols ==> #[trigger] csr_at(res, r, c) == coo_at(slf, r, c).add(coo_at(rhs, r, c)),
@after Coo::new 0
    proof {
        let (n1, n2) = (slf.values.len() as int, rhs.values.len() as int);
        let (gr, gc, gx) = (a_mat.rowidx@, a_mat.colidx@, a_mat.values@);
        assert(gr =~= slf.rowidx@ + rhs.rowidx@); assert(gc =~= slf.colidx@ + rhs.colidx@); assert(gx =~= slf.values@ + rhs.values@);
        assert(appended(slf.rowidx@, slf.colidx@, slf.values@, n1, rhs.rowidx@, rhs.colidx@, rhs.values@, n2, 0, 0, gr, gc, gx));
        assert forall|r: int, c: int| #[trigger] coo_at(a_mat, r, c) == coo_at(slf, r, c).add(coo_at(rhs, r, c)) by {
            csum_app(slf.rowidx@, slf.colidx@, slf.values@, n1, rhs.rowidx@, rhs.colidx@, rhs.values@, n2, 0, 0, gr, gc, gx, n2, r, c); }
        assert forall|k: int| 0 <= k < n1 + n2 implies 0 <= (#[trigger] gr[k]).iv() < slf.rows by { if k < n1 { let z = slf.rowidx[k]; } else { let z = rhs.rowidx[k - n1]; } }
        assert forall|k: int| 0 <= k < n1 + n2 implies 0 <= (#[trigger] gc[k]).iv() < slf.cols by { if k < n1 { let z = slf.colidx[k]; } else { let z = rhs.colidx[k - n1]; } }
    }

@fn coo_ops::add(Coo<I,T>,Coo<I,T>)##any
@props C17
@panics
@sig
requires coo_ok(slf), coo_ok(rhs), slf.rows == rhs.rows && slf.cols == rhs.cols ==> slf.values.len() + rhs.values.len() <= I::imax(), slf.values.len() + rhs.values.len() <= isize::MAX,
ensures slf.rows == rhs.rows && slf.cols == rhs.cols,
