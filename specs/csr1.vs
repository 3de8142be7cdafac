@fn csr::CSR::new
@props C17
@sig
requires rows < usize::MAX, rowptr.len() == rows + 1 ==> 0 <= rowptr[rows as int].iv() <= usize::MAX,
ensures res.is_ok() == (rowptr.len() == rows + 1 && colidx.len() >= rowptr[rows as int].iv() && values.len() >= rowptr[rows as int].iv()),
    match res { Ok(m) => m.rows == rows && m.cols == cols && m.rowptr == rowptr && m.colidx == colidx && m.values == values, Err(_) => true },

@fn csr::CSR::with_size
@props C05
@sig
requires rows < usize::MAX, rows <= imx::<I>(), cols <= imx::<I>(),
ensures csr_ok(res), res.rows == rows, res.cols == cols, csr_nnz(res) == 0, csr_canon(res),
    forall|r: int, c: int| 0 <= r < rows ==> #[trigger] csr_at(res, r, c) == C::zero(),

@fn csr::CSR::rows
@props C17
@sig
ensures res == self.rows,

@fn csr::CSR::cols
@props C17
@sig
ensures res == self.cols,

@fn csr::CSR::rowptr
@props C17
@sig
ensures res@ == self.rowptr@,

@fn csr::CSR::colidx
@props C17
@sig
ensures res@ == self.colidx@,

@fn csr::CSR::values
@props C17
@sig
ensures res@ == self.values@,

@fn csr::CSR::nnz
@props C11
@sig
requires self.rowptr.len() > 0 ==> 0 <= self.rowptr[self.rowptr.len() - 1].iv() <= usize::MAX,
ensures self.rowptr.len() == 0 ==> res == 0, self.rowptr.len() > 0 ==> res == self.rowptr[self.rowptr.len() - 1].iv(),

@fn csr::CSR::transpose
@props C04
@sig
requires csr_ok(self),
ensures csc_ok(res), res.rows == self.cols, res.cols == self.rows, res.colptr@ == self.rowptr@, res.rowidx@ == self.colidx@, res.values@ == self.values@,
    forall|r: int, c: int| #[trigger] csc_at(res, c, r) == csr_at(self, r, c),
    forall|r: int, c: int| #[trigger] csc_vals(res, c, r) == csr_vals(self, r, c),

@fn csr::CSR::t
@props C04
@sig
requires csr_ok(*self),
ensures csc_ok(res), res.rows == self.cols, res.cols == self.rows, res.colptr@ == self.rowptr@, res.rowidx@ == self.colidx@, res.values@ == self.values@,
    forall|r: int, c: int| #[trigger] csc_at(res, c, r) == csr_at(*self, r, c),
    forall|r: int, c: int| #[trigger] csc_vals(res, c, r) == csr_vals(*self, r, c),

@fn csr::CSR::has_canonical_format
@props C11
@sig
requires csr_ok(*self),
ensures res == csr_canon(*self),

@fn csr::CSR::has_sorted_indexes
@props C11
@sig
requires csr_ok(*self),
ensures res == sorted_lines(self.rows as int, self.rowptr@, self.colidx@),

@fn csr::CSR::sort_indexes
@props C10
@sig
requires csr_ok(*old(self)),
ensures csr_ok(*final(self)), final(self).rows == old(self).rows, final(self).cols == old(self).cols, final(self).rowptr@ == old(self).rowptr@,
    sorted_lines(old(self).rows as int, final(self).rowptr@, final(self).colidx@),
    forall|r: int, c: int| 0 <= r < old(self).rows ==> #[trigger] csr_vals(*final(self), r, c) == csr_vals(*old(self), r, c),
    forall|r: int, c: int| 0 <= r < old(self).rows ==> #[trigger] csr_at(*final(self), r, c) == csr_at(*old(self), r, c),

@fn csr::CSR::sum_duplicates
@props C10
@sig
requires csr_ok(*old(self)),
ensures res.is_ok(), csr_ok(*final(self)), final(self).rows == old(self).rows, final(self).cols == old(self).cols, csr_canon(*final(self)),
    forall|r: int, c: int| 0 <= r < old(self).rows ==> #[trigger] csr_at(*final(self), r, c) == csr_at(*old(self), r, c),
    csr_nnz(*final(self)) <= csr_nnz(*old(self)),
@before csr_sum_duplicates 0
    let ghost ss = *self;
    proof { assert forall|r: int, c: int| 0 <= r < old(self).rows implies #[trigger] ent(ss.rowptr@, ss.colidx@, ss.values@, r, c) == csr_at(*old(self), r, c) by { assert(csr_at(ss, r, c) == csr_at(*old(self), r, c)); } }
@after csr_sum_duplicates 0
    proof { 
        assert forall|r: int| 0 <= r < self.rows implies #[trigger] strict_line(self.rowptr@, self.colidx@, r) by { assert(sorted_line(ss.rowptr@, ss.colidx@, r)); }
        assert forall|r: int, c: int| 0 <= r < old(self).rows implies #[trigger] csr_at(*self, r, c) == csr_at(*old(self), r, c) by {
            assert(ent(self.rowptr@, self.colidx@, self.values@, r, c) == ent(ss.rowptr@, ss.colidx@, ss.values@, r, c)); }
    }

@fn csr::CSR::prune
@props C10
@sig
requires csr_ok(*old(self)),
ensures res.is_ok(), csr_ok(*final(self)), final(self).rows == old(self).rows, final(self).cols == old(self).cols, final(self).rowptr@ == old(self).rowptr@,
    final(self).colidx@ == old(self).colidx@.subrange(0, csr_nnz(*old(self))), final(self).values@ == old(self).values@.subrange(0, csr_nnz(*old(self))),
    forall|r: int, c: int| 0 <= r < old(self).rows ==> #[trigger] csr_at(*final(self), r, c) == csr_at(*old(self), r, c),
    csr_canon(*final(self)) == csr_canon(*old(self)),
@end
    proof {
        assert(self.colidx@ =~= old(self).colidx@.subrange(0, csr_nnz(*old(self))));
        assert(self.values@ =~= old(self).values@.subrange(0, csr_nnz(*old(self))));
        same_store_ok(self.rows as int, self.cols as int, self.rowptr@, old(self).colidx@, old(self).values@, self.colidx@, self.values@);
    }

@fn csr::CSR::mat_vec
@props C06 C17
@sig
requires csr_ok(*self),
ensures res.is_ok() == (x.len() == self.cols),
    match res { Ok(y) => y.len() == self.rows && (forall|i: int| 0 <= i < self.rows ==> (#[trigger] y[i]).sv() == linedot(self.colidx@, self.values@, x@, self.rowptr[i].iv(), self.rowptr[i + 1].iv(), self.cols as int)), Err(_) => true },
