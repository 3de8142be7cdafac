@fn csr::CSR::values_mut
@props C23
@sig
ensures res@ == old(self).values@, final(self).rows == old(self).rows, final(self).cols == old(self).cols, final(self).rowptr == old(self).rowptr,
    final(self).colidx == old(self).colidx, final(self).values@ == final(res)@,

@fn csr::CSR::from_dense
@props C05
@sig
requires a.len() <= imx::<I>(), a.len() > 0 ==> a[0].len() <= imx::<I>(),
    forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).len() == a[0].len(),
    a.len() > 0 ==> gtot(dgr(a@), a.len() as int, a[0].len() as int) <= I::imax() && gtot(dgr(a@), a.len() as int, a[0].len() as int) <= isize::MAX,
ensures csr_ok(res), res.rows == a.len(), a.len() > 0 ==> res.cols == a[0].len(), a.len() == 0 ==> res.cols == 0, csr_canon(res),
    res.values.len() == csr_nnz(res), res.colidx.len() == csr_nnz(res),
    forall|k: int| 0 <= k < csr_nnz(res) ==> (#[trigger] res.values[k]).sv() != C::zero(),
    forall|r: int, c: int| 0 <= r < res.rows && 0 <= c < res.cols ==> #[trigger] csr_at(res, r, c) == a[r][c].sv(),
@top
    let ghost g = dgr(a@);
    proof { let z: I = arbitrary(); z.law_range(); }
@loop 0
invariant rows == a.len(), rows > 0 ==> cols == a[0].len(), g == dgr(a@), rows == 0 ==> cols == 0,
    rowptr.len() == i, forall|q: int| 0 <= q < i ==> (#[trigger] rowptr[q]).iv() == gtot(g, q, cols as int),
    idxptr == gtot(g, i as int, cols as int), colidx.len() == idxptr, values.len() == idxptr,
    glines(g, i as int, cols as int, colidx@, values@),
@top 0
    let ghost so = idxptr as int; let ghost sj = colidx@; let ghost sx = values@;
    proof { gtot_mono(g, 0, i as int, cols as int); gtot_mono(g, i + 1, rows as int, cols as int); gline_zero(g, i as int, colidx@, values@, so); gcnt_mono(g, i as int, 0, cols as int); }
@loop 1
invariant colidx.len() == idxptr, values.len() == idxptr, so <= idxptr,
    gline(g, i as int, colidx@, values@, so, idxptr as int, j as int),
    forall|k: int| 0 <= k < so ==> (#[trigger] colidx[k]) == sj[k], forall|k: int| 0 <= k < so ==> (#[trigger] values[k]) == sx[k],
@top 1
    let ghost gj = colidx@; let ghost gx = values@; let ghost gk = idxptr as int;
    proof { gcnt_mono(g, i as int, j + 1, cols as int); assert(a[i as int].len() == cols); assert(g(i as int, j as int) == a[i as int][j as int].sv()); }
@bot 1
    proof {
        if g(i as int, j as int) != C::zero() { gline_push(g, i as int, gj, gx, so, gk, j as int, colidx@, values@); }
        else { gline_skip(g, i as int, gj, gx, so, gk, j as int); }
    }
@bot 0
    proof {
        glines_ext(g, i as int, cols as int, sj, sx, colidx@, values@);
        assert(glined(g, i as int, cols as int, colidx@, values@));
    }
@before prune 0
    let ghost ss = csr;
    proof {
        glines_ok(g, rows as int, cols as int, csr.rowptr@, csr.colidx@, csr.values@);
        assert forall|r: int, c: int| 0 <= r < rows && 0 <= c < cols implies #[trigger] csr_at(ss, r, c) == a[r][c].sv() by {
            assert(ent(ss.rowptr@, ss.colidx@, ss.values@, r, c) == g(r, c)); }
    }

@fn csr::CSR::with_diagonal
@props C05
@sig
requires values.len() <= imx::<I>(),
ensures csr_ok(res), res.rows == values.len(), res.cols == values.len(), csr_canon(res), res.values@ == values@, csr_nnz(res) == values.len(),
    forall|r: int, c: int| 0 <= r < res.rows && 0 <= c < res.cols ==> #[trigger] csr_at(res, r, c) == if r == c { values[r].sv() } else { C::zero() },
@loop 0
invariant rowptr.len() == n + 1, forall|q: int| 0 <= q < i ==> (#[trigger] rowptr[q]).iv() == q,
@loop 1
invariant colidx.len() == n, forall|q: int| 0 <= q < i ==> (#[trigger] colidx[q]).iv() == q,
@end
    proof { diag_lines(n as int, rowptr@, colidx@, values@); }

@fn csr::CSR::mat_mat
@props C07 C17
@sig
requires csr_ok(*self), csr_ok(*x), self.cols == x.rows ==> matcnt(self.rowptr@, self.colidx@, x.rowptr@, x.colidx@, x.cols as int, self.rows as int) <= imx::<I>(),
ensures res.is_ok() == (self.cols == x.rows),
    match res { Ok(m) => csr_ok(m) && m.rows == self.rows && m.cols == x.cols && distinct_lines(m.rows as int, m.rowptr@, m.colidx@) &&
        (forall|k: int| 0 <= k < csr_nnz(m) ==> (#[trigger] m.values[k]).sv() != C::zero()) &&
        (forall|r: int, k: int| 0 <= r < m.rows && 0 <= k < m.cols ==> #[trigger] csr_at(m, r, k) ==
            prod(self.colidx@, self.values@, x.rowptr@, x.colidx@, x.values@, self.rowptr[r].iv(), self.rowptr[r + 1].iv(), self.cols as int, k)), Err(_) => true },
@top
    assert(self.cols == x.rows ==> wf(self.rows as int, x.rows as int, self.rowptr@, self.colidx@) && wf(x.rows as int, x.cols as int, x.rowptr@, x.colidx@));
@after csr_matmat 0
    proof { assert(wfx(self.rows as int, x.rows as int, self.rowptr@, self.colidx@, self.values@)); 
        assert forall|r: int, k: int| 0 <= r < rows && 0 <= k < cols implies #[trigger] ent(rowptr@, colidx@, values@, r, k) ==
            prod(self.colidx@, self.values@, x.rowptr@, x.colidx@, x.values@, self.rowptr[r].iv(), self.rowptr[r + 1].iv(), self.cols as int, k) by { } }

@fn csr::CSR::select
@props C12 C17
@index 1 3
@sub &rowidx, ==> rowidx,
@sub &colidx, ==> colidx,
@sig
requires csr_ok(*self), match rowidx { Some(r) => r.len() <= imx::<I>(), None => true }, match colidx { Some(c) => c.len() <= imx::<I>(), None => true },
    seltot(self.rowptr@, self.colidx@, sel_list(self.rows as int, rowidx), sel_list(self.cols as int, colidx), sel_list(self.rows as int, rowidx).len() as int) <= imx::<I>(),
ensures res.is_ok() == (csr_canon(*self) && inr(sel_list(self.rows as int, rowidx), self.rows as int) && inr(sel_list(self.cols as int, colidx), self.cols as int)),
    match res { Ok(m) => csr_ok(m) && csr_canon(m) && m.rows == sel_list(self.rows as int, rowidx).len() && m.cols == sel_list(self.cols as int, colidx).len() &&
        (forall|r: int, c: int| 0 <= r < m.rows && 0 <= c < m.cols ==> #[trigger] csr_at(m, r, c) == csr_at(*self, sel_list(self.rows as int, rowidx)[r].iv(), sel_list(self.cols as int, colidx)[c].iv())), Err(_) => true },
@pre 0
    let ghost gr0 = rowidx_full@.len();
@loop 0
invariant self.rows <= imx::<I>(), rowidx_full.len() == (if gr0 == self.rows { self.rows as int } else { i as int }), gr0 == self.rows || gr0 == 0, forall|t: int| 0 <= t < i ==> (#[trigger] rowidx_full[t]).iv() == t,
@loop 1
invariant forall|t: int| 0 <= t < vpi1 ==> 0 <= (#[trigger] rowidx[t]).iv() < self.rows,
@top 1
    proof { let z = rowidx[vpi1 as int]; }
@pre 2
    let ghost gc0 = colidx_full@.len();
@loop 2
invariant self.cols <= imx::<I>(), colidx_full.len() == (if gc0 == self.cols { self.cols as int } else { i as int }), gc0 == self.cols || gc0 == 0, forall|t: int| 0 <= t < i ==> (#[trigger] colidx_full[t]).iv() == t,
@loop 3
invariant forall|t: int| 0 <= t < vpi3 ==> 0 <= (#[trigger] colidx[t]).iv() < self.cols,
@top 3
    proof { let z = colidx[vpi3 as int]; }
@post 0
    proof { iota_is(self.rows as int, rowidx_full@); }
@post 2
    proof { iota_is(self.cols as int, colidx_full@); }
@before csr_select 0
    proof {
        strict_more(self.rows as int, self.rowptr@, self.colidx@);
        assert(sel_pre(self.rows as int, self.cols as int, self.rowptr@, self.colidx@, self.values@, rowidx@, colidx@));
    }
@after csr_select 0
    proof { assert(sel_val(self.rowptr@, self.colidx@, self.values@, rowidx@, colidx@, b_p@, b_j@, b_x@)); }

@fn csr::CSR::to_coo
@props C03
@sig
requires csr_ok(*self),
ensures coo_ok(res), res.rows == self.rows, res.cols == self.cols, res.values.len() == csr_nnz(*self), expanded(self.rows as int, self.rowptr@, res.rowidx@),
    res.colidx@ == self.colidx@.subrange(0, csr_nnz(*self)), res.values@ == self.values@.subrange(0, csr_nnz(*self)),
    forall|r: int, c: int| 0 <= r < self.rows ==> #[trigger] coo_at(res, r, c) == csr_at(*self, r, c),
@after expandptr 0
    proof {
        assert(colidx@ =~= self.colidx@.subrange(0, csr_nnz(*self)));
        assert(values@ =~= self.values@.subrange(0, csr_nnz(*self)));
        expanded_csum(self.rows as int, self.cols as int, self.rowptr@, self.colidx@, self.values@, rowidx@, colidx@, values@);
    }

@fn csr::CSR::to_csc
@props C01
@sig
requires csr_ok(*self),
ensures csc_ok(res), res.rows == self.rows, res.cols == self.cols, csc_nnz(res) == csr_nnz(*self), res.values.len() == csr_nnz(*self), res.rowidx.len() == csr_nnz(*self),
    sorted_lines(res.cols as int, res.colptr@, res.rowidx@),
    forall|r: int, c: int| 0 <= r < self.rows && 0 <= c < self.cols ==> #[trigger] csc_vals(res, r, c) == csr_vals(*self, r, c),
    forall|r: int, c: int| 0 <= r < self.rows && 0 <= c < self.cols ==> #[trigger] csc_at(res, r, c) == csr_at(*self, r, c),
@after csr_tocsc 0
    proof {
        grouped_vals(self.colidx@, self.values@, csr_nnz(*self), self.cols as int, self.rowptr@, self.rows as int, colptr@, rowidx@, values@);
        assert forall|r: int, c: int| 0 <= r < self.rows && 0 <= c < self.cols implies #[trigger] vall(colptr@, rowidx@, values@, c, r) == csr_vals(*self, r, c) by {}
        assert forall|r: int, c: int| 0 <= r < self.rows && 0 <= c < self.cols implies #[trigger] ent(colptr@, rowidx@, values@, c, r) == csr_at(*self, r, c) by {}
    }

@fn csr::CSR::to_dense
@props C05
@sig
requires csr_ok(*self),
ensures res.len() == self.rows, forall|r: int| 0 <= r < self.rows ==> (#[trigger] res[r]).len() == self.cols,
    forall|r: int, c: int| 0 <= r < self.rows && 0 <= c < self.cols ==> #[trigger] res[r][c].sv() == csr_at(*self, r, c),
@before csr_todense 0
    let ghost gd = dense@;
@after csr_todense 0
    proof { assert forall|r: int, c: int| 0 <= r < self.rows && 0 <= c < self.cols implies #[trigger] dense[r][c].sv() == csr_at(*self, r, c) by {
        assert(dense[r].len() == self.cols); assert(gd[r].len() == self.cols); assert(gd[r][c].sv() == C::zero()); assert(ent(self.rowptr@, self.colidx@, self.values@, r, c) == csr_at(*self, r, c)); } }

@fn csr::CSR::diagonal
@props C13
@sig
requires csr_ok(*self),
ensures res.len() == if self.rows <= self.cols { self.rows } else { self.cols },
    forall|i: int| 0 <= i < res.len() ==> (#[trigger] res[i]).sv() == csr_at(*self, i, i),

@fn csr::CSR::get
@props C05
@sig
requires csr_ok(*self), 0 <= i.iv() < self.rows, 0 <= j.iv() < self.cols,
ensures occl(self.rowptr@, self.colidx@, i.iv(), j.iv()) ==> res == csr_vals(*self, i.iv(), j.iv())[0],
    !occl(self.rowptr@, self.colidx@, i.iv(), j.iv()) ==> res.sv() == C::zero(),
    distinct_lines(self.rows as int, self.rowptr@, self.colidx@) ==> res.sv() == csr_at(*self, i.iv(), j.iv()),
@top
    let ghost (gi, gj) = (i.iv(), j.iv());
    proof { ptr_all(self.rows as int, self.rowptr@); }
@loop 0
invariant i == gi, j == gj, !occ(self.colidx@, start as int, k as int, gj),
@top 0
    proof { if self.colidx[k as int].iv() == gj {
        vals_first(self.colidx@, self.values@, start as int, k as int, end as int, gj);
        assert(distinct_lines(self.rows as int, self.rowptr@, self.colidx@) ==> distinct_line(self.rowptr@, self.colidx@, gi));
        if distinct_lines(self.rows as int, self.rowptr@, self.colidx@) { esum_dist(self.colidx@, self.values@, start as int, end as int, gj, k as int); }
    } }
@end
    proof { ent_none(self.rowptr@, self.colidx@, self.values@, gi, gj); }

@fn csr::CSR::h_stack
@props C16 C17
@sig
requires csr_ok(*a_mat), csr_ok(*b_mat), a_mat.cols + b_mat.cols <= imx::<I>(), csr_nnz(*a_mat) + csr_nnz(*b_mat) <= imx::<I>(),
ensures res.is_ok() == (a_mat.rows == b_mat.rows),
    match res { Ok(m) => csr_ok(m) && csr_canon(m) && m.rows == a_mat.rows && m.cols == a_mat.cols + b_mat.cols &&
        (forall|r: int, c: int| 0 <= r < m.rows && 0 <= c < m.cols ==> #[trigger] csr_at(m, r, c) == if c < a_mat.cols { csr_at(*a_mat, r, c) } else { csr_at(*b_mat, r, c - a_mat.cols) }), Err(_) => true },
