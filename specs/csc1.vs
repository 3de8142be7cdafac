@fn csc::CSC::new
@props C17
@sig
requires cols < usize::MAX, colptr.len() == cols + 1 ==> 0 <= colptr[cols as int].iv() <= usize::MAX,
ensures res.is_ok() == (colptr.len() == cols + 1 && rowidx.len() >= colptr[cols as int].iv() && values.len() >= colptr[cols as int].iv()),
    match res { Ok(m) => m.rows == rows && m.cols == cols && m.colptr == colptr && m.rowidx == rowidx && m.values == values, Err(_) => true },

@fn csc::CSC::rows
@props C17
@sig
ensures res == self.rows,

@fn csc::CSC::cols
@props C17
@sig
ensures res == self.cols,

@fn csc::CSC::rowidx
@props C17
@sig
ensures res@ == self.rowidx@,

@fn csc::CSC::colptr
@props C17
@sig
ensures res@ == self.colptr@,

@fn csc::CSC::values
@props C17
@sig
ensures res@ == self.values@,

@fn csc::CSC::shape
@props C17
@sig
ensures res == (self.rows, self.cols),

@fn csc::CSC::nnz
@props C11
@sig
requires self.colptr.len() > 0 ==> 0 <= self.colptr[self.colptr.len() - 1].iv() <= usize::MAX,
ensures self.colptr.len() == 0 ==> res == 0, self.colptr.len() > 0 ==> res == self.colptr[self.colptr.len() - 1].iv(),

@fn csc::CSC::transpose
@props C04
@sig
requires csc_ok(*self),
ensures csr_ok(res), res.rows == self.cols, res.cols == self.rows, res.rowptr@ == self.colptr@, res.colidx@ == self.rowidx@, res.values@ == self.values@,
    forall|r: int, c: int| #[trigger] csr_at(res, c, r) == csc_at(*self, r, c),
    forall|r: int, c: int| #[trigger] csr_vals(res, c, r) == csc_vals(*self, r, c),

@fn csc::CSC::t
@props C04
@sig
requires csc_ok(*self),
ensures csr_ok(res), res.rows == self.cols, res.cols == self.rows, res.rowptr@ == self.colptr@, res.colidx@ == self.rowidx@, res.values@ == self.values@,
    forall|r: int, c: int| #[trigger] csr_at(res, c, r) == csc_at(*self, r, c),
    forall|r: int, c: int| #[trigger] csr_vals(res, c, r) == csc_vals(*self, r, c),

@fn csc::CSC::has_canonical_format
@props C11
@sig
requires csc_ok(*self),
ensures res == csc_canon(*self),

@fn csc::CSC::has_sorted_indexes
@props C11
@sig
requires csc_ok(*self),
ensures res == sorted_lines(self.cols as int, self.colptr@, self.rowidx@),

@fn csc::CSC::sort_indexes
@props C10
@sig
requires csc_ok(*old(self)),
ensures csc_ok(*final(self)), final(self).rows == old(self).rows, final(self).cols == old(self).cols, final(self).colptr@ == old(self).colptr@,
    sorted_lines(old(self).cols as int, final(self).colptr@, final(self).rowidx@),
    forall|r: int, c: int| 0 <= c < old(self).cols ==> #[trigger] csc_vals(*final(self), r, c) == csc_vals(*old(self), r, c),
    forall|r: int, c: int| 0 <= c < old(self).cols ==> #[trigger] csc_at(*final(self), r, c) == csc_at(*old(self), r, c),

@fn csc::CSC::sum_duplicates
@props C10
@sig
requires csc_ok(*old(self)),
ensures csc_ok(*final(self)), final(self).rows == old(self).rows, final(self).cols == old(self).cols, csc_canon(*final(self)),
    forall|r: int, c: int| 0 <= c < old(self).cols ==> #[trigger] csc_at(*final(self), r, c) == csc_at(*old(self), r, c),
    csc_nnz(*final(self)) <= csc_nnz(*old(self)),
@before csr_sum_duplicates 0
    let ghost ss = *self;
    proof { assert forall|r: int, c: int| 0 <= c < old(self).cols implies #[trigger] ent(ss.colptr@, ss.rowidx@, ss.values@, c, r) == csc_at(*old(self), r, c) by { assert(csc_at(ss, r, c) == csc_at(*old(self), r, c)); } }
@after csr_sum_duplicates 0
    proof { 
        assert forall|r: int| 0 <= r < self.cols implies #[trigger] strict_line(self.colptr@, self.rowidx@, r) by { assert(sorted_line(ss.colptr@, ss.rowidx@, r)); }
        assert forall|r: int, c: int| 0 <= c < old(self).cols implies #[trigger] csc_at(*self, r, c) == csc_at(*old(self), r, c) by {
            assert(ent(self.colptr@, self.rowidx@, self.values@, c, r) == ent(ss.colptr@, ss.rowidx@, ss.values@, c, r)); }
    }

@fn csc::CSC::prune
@props C10
@sig
requires csc_ok(*old(self)),
ensures res.is_ok(), csc_ok(*final(self)), final(self).rows == old(self).rows, final(self).cols == old(self).cols, final(self).colptr@ == old(self).colptr@,
    final(self).rowidx@ == old(self).rowidx@.subrange(0, csc_nnz(*old(self))), final(self).values@ == old(self).values@.subrange(0, csc_nnz(*old(self))),
    forall|r: int, c: int| 0 <= c < old(self).cols ==> #[trigger] csc_at(*final(self), r, c) == csc_at(*old(self), r, c),
    csc_canon(*final(self)) == csc_canon(*old(self)),
@end
    proof {
        assert(self.rowidx@ =~= old(self).rowidx@.subrange(0, csc_nnz(*old(self))));
        assert(self.values@ =~= old(self).values@.subrange(0, csc_nnz(*old(self))));
        same_store_ok(self.cols as int, self.rows as int, self.colptr@, old(self).rowidx@, old(self).values@, self.rowidx@, self.values@);
    }

@fn csc::CSC::mat_vec
@props C06 C17
@sig
requires csc_ok(*self),
ensures res.is_ok() == (x.len() == self.cols),
    match res { Ok(y) => y.len() == self.rows && (forall|i: int| 0 <= i < self.rows ==> (#[trigger] y[i]).sv() == coldot(self.colptr@, self.rowidx@, self.values@, x@, self.cols as int, i)), Err(_) => true },
