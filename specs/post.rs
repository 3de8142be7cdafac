// ---- matrices: validity and values --------------------------------------------------------------------------
/// the largest dimension an index of type I can hold
pub open spec fn imx<I: Integer>() -> int { if I::imax() <= isize::MAX - 1 { I::imax() } else { isize::MAX - 1 } }
/// a valid CSR matrix whose dimensions its index type can hold
pub open spec fn csr_ok<I: Integer, T: Scalar>(a: CSR<I, T>) -> bool {
    a.rowptr.len() == a.rows + 1 && wfx(a.rows as int, a.cols as int, a.rowptr@, a.colidx@, a.values@) && a.rows <= imx::<I>() && a.cols <= imx::<I>()
}
pub open spec fn csc_ok<I: Integer, T: Scalar>(a: CSC<I, T>) -> bool {
    a.colptr.len() == a.cols + 1 && wfx(a.cols as int, a.rows as int, a.colptr@, a.rowidx@, a.values@) && a.rows <= imx::<I>() && a.cols <= imx::<I>()
}
pub open spec fn coo_ok<I: Integer, T: Scalar>(a: Coo<I, T>) -> bool {
    &&& a.rowidx.len() == a.values.len() && a.colidx.len() == a.values.len()
    &&& wfc(a.rows as int, a.cols as int, a.values.len() as int, a.rowidx@, a.colidx@, a.values@) && a.rows <= imx::<I>() && a.cols <= imx::<I>()
}
pub open spec fn csr_nnz<I: Integer, T>(a: CSR<I, T>) -> int { a.rowptr[a.rows as int].iv() }
pub open spec fn csc_nnz<I: Integer, T>(a: CSC<I, T>) -> int { a.colptr[a.cols as int].iv() }
/// the value of the matrix at (r, c)
pub open spec fn csr_at<I: Integer, T: Scalar>(a: CSR<I, T>, r: int, c: int) -> C { ent(a.rowptr@, a.colidx@, a.values@, r, c) }
pub open spec fn csc_at<I: Integer, T: Scalar>(a: CSC<I, T>, r: int, c: int) -> C { ent(a.colptr@, a.rowidx@, a.values@, c, r) }
pub open spec fn coo_at<I: Integer, T: Scalar>(a: Coo<I, T>, r: int, c: int) -> C { csum(a.rowidx@, a.colidx@, a.values@, a.values.len() as int, r, c) }
/// the stored values at (r, c), in storage order
pub open spec fn csr_vals<I: Integer, T: Scalar>(a: CSR<I, T>, r: int, c: int) -> Seq<T> { vall(a.rowptr@, a.colidx@, a.values@, r, c) }
pub open spec fn csc_vals<I: Integer, T: Scalar>(a: CSC<I, T>, r: int, c: int) -> Seq<T> { vall(a.colptr@, a.rowidx@, a.values@, c, r) }
/// sorted and free of duplicates
pub open spec fn csr_canon<I: Integer, T: Scalar>(a: CSR<I, T>) -> bool { strict_lines(a.rows as int, a.rowptr@, a.colidx@) }
pub open spec fn csc_canon<I: Integer, T: Scalar>(a: CSC<I, T>) -> bool { strict_lines(a.cols as int, a.colptr@, a.rowidx@) }
/// the rows and columns a selection asks for (all of them where none are listed)
pub open spec fn sel_list<I: Integer>(n: int, l: Option<&[I]>) -> Seq<I> { match l { Some(r) => r@, None => iota::<I>(n) } }
pub open spec fn inr<I: Integer>(l: Seq<I>, n: int) -> bool { forall|t: int| 0 <= t < l.len() ==> 0 <= (#[trigger] l[t]).iv() < n }
