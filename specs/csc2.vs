@fn csc::CSC::values_mut
@props C23
@sig
ensures res@ == old(self).values@, final(self).rows == old(self).rows, final(self).cols == old(self).cols, final(self).colptr == old(self).colptr,
    final(self).rowidx == old(self).rowidx, final(self).values@ == final(res)@,

@fn csc::CSC::from_dense
@props C05
@sig
requires a.len() <= imx::<I>(), a.len() > 0 ==> a[0].len() <= imx::<I>(),
    forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).len() == a[0].len(),
    a.len() > 0 ==> gtot(dgc(a@), a[0].len() as int, a.len() as int) <= I::imax() && gtot(dgc(a@), a[0].len() as int, a.len() as int) <= isize::MAX,
ensures csc_ok(res), res.rows == a.len(), a.len() > 0 ==> res.cols == a[0].len(), a.len() == 0 ==> res.cols == 0, csc_canon(res),
    res.values.len() == csc_nnz(res), res.rowidx.len() == csc_nnz(res),
    forall|k: int| 0 <= k < csc_nnz(res) ==> (#[trigger] res.values[k]).sv() != C::zero(),
    forall|r: int, c: int| 0 <= r < res.rows && 0 <= c < res.cols ==> #[trigger] csc_at(res, r, c) == a[r][c].sv(),
@top
    let ghost g = dgc(a@);
    proof { let z: I = arbitrary(); z.law_range(); if a.len() == 0 { assert(gtot(g, 0, 0) == 0); } }
@loop 0
invariant rows == a.len(), rows > 0 ==> cols == a[0].len(), g == dgc(a@), rows == 0 ==> cols == 0,
    colptr.len() == i, forall|q: int| 0 <= q < i ==> (#[trigger] colptr[q]).iv() == gtot(g, q, rows as int),
    idxptr == gtot(g, i as int, rows as int), rowidx.len() == idxptr, values.len() == idxptr,
    glines(g, i as int, rows as int, rowidx@, values@),
@top 0
    let ghost so = idxptr as int; let ghost sj = rowidx@; let ghost sx = values@;
    proof { gtot_mono(g, 0, i as int, rows as int); gtot_mono(g, i + 1, cols as int, rows as int); gline_zero(g, i as int, rowidx@, values@, so); gcnt_mono(g, i as int, 0, rows as int); }
@loop 1
invariant rowidx.len() == idxptr, values.len() == idxptr, so <= idxptr,
    gline(g, i as int, rowidx@, values@, so, idxptr as int, j as int),
    forall|k: int| 0 <= k < so ==> (#[trigger] rowidx[k]) == sj[k], forall|k: int| 0 <= k < so ==> (#[trigger] values[k]) == sx[k],
@top 1
    let ghost gj = rowidx@; let ghost gx = values@; let ghost gk = idxptr as int;
    proof { gcnt_mono(g, i as int, j + 1, rows as int); assert(a[j as int].len() == cols); assert(g(i as int, j as int) == a[j as int][i as int].sv()); }
@bot 1
    proof {
        if g(i as int, j as int) != C::zero() { gline_push(g, i as int, gj, gx, so, gk, j as int, rowidx@, values@); }
        else { gline_skip(g, i as int, gj, gx, so, gk, j as int); }
    }
@bot 0
    proof {
        glines_ext(g, i as int, rows as int, sj, sx, rowidx@, values@);
        assert(glined(g, i as int, rows as int, rowidx@, values@));
    }
@before prune 0
    let ghost ss = csc;
    proof {
        glines_ok(g, cols as int, rows as int, csc.colptr@, csc.rowidx@, csc.values@);
        assert forall|r: int, c: int| 0 <= r < rows && 0 <= c < cols implies #[trigger] csc_at(ss, r, c) == a[r][c].sv() by {
            assert(ent(ss.colptr@, ss.rowidx@, ss.values@, c, r) == g(c, r)); }
    }

@fn csc::CSC::with_diagonal
@props C05
@sig
requires values.len() <= imx::<I>(),
ensures csc_ok(res), res.rows == values.len(), res.cols == values.len(), csc_canon(res), res.values@ == values@, csc_nnz(res) == values.len(),
    forall|r: int, c: int| 0 <= r < res.rows && 0 <= c < res.cols ==> #[trigger] csc_at(res, r, c) == if r == c { values[r].sv() } else { C::zero() },
@loop 0
invariant rowidx.len() == n, forall|q: int| 0 <= q < i ==> (#[trigger] rowidx[q]).iv() == q,
@loop 1
invariant colptr.len() == n + 1, forall|q: int| 0 <= q < i ==> (#[trigger] colptr[q]).iv() == q,
@end
    proof { diag_lines(n as int, colptr@, rowidx@, values@);
        assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] ent(colptr@, rowidx@, values@, c, r) == if r == c { values[r].sv() } else { C::zero() } by {} }

@fn csc::CSC::mat_mat
@props C07 C17
@sig
requires csc_ok(*self), csc_ok(*x), self.cols == x.rows ==> matcnt(x.colptr@, x.rowidx@, self.colptr@, self.rowidx@, self.rows as int, x.cols as int) <= imx::<I>(),
ensures res.is_ok() == (self.cols == x.rows),
    match res { Ok(m) => csc_ok(m) && m.rows == self.rows && m.cols == x.cols && distinct_lines(m.cols as int, m.colptr@, m.rowidx@) &&
        (forall|k: int| 0 <= k < csc_nnz(m) ==> (#[trigger] m.values[k]).sv() != C::zero()) &&
        (forall|r: int, k: int| 0 <= r < m.rows && 0 <= k < m.cols ==> #[trigger] csc_at(m, r, k) ==
            prod(x.rowidx@, x.values@, self.colptr@, self.rowidx@, self.values@, x.colptr[k].iv(), x.colptr[k + 1].iv(), self.cols as int, r)), Err(_) => true },
@top
    assert(self.cols == x.rows ==> wf(x.cols as int, x.rows as int, x.colptr@, x.rowidx@) && wf(x.rows as int, self.rows as int, self.colptr@, self.rowidx@));
@after csc_matmat 0
    proof { assert(wfx(x.cols as int, x.rows as int, x.colptr@, x.rowidx@, x.values@)); 
        assert forall|r: int, k: int| 0 <= r < rows && 0 <= k < cols implies #[trigger] ent(colptr@, rowidx@, values@, k, r) ==
            prod(x.rowidx@, x.values@, self.colptr@, self.rowidx@, self.values@, x.colptr[k].iv(), x.colptr[k + 1].iv(), self.cols as int, r) by { } }

@fn csc::CSC::select
@props C12 C17
@index 1 3
@sub &rowidx, ==> rowidx,
@sub &colidx, ==> colidx,
@sig
requires csc_ok(*self), match rowidx { Some(r) => r.len() <= imx::<I>(), None => true }, match colidx { Some(c) => c.len() <= imx::<I>(), None => true },
    seltot(self.colptr@, self.rowidx@, sel_list(self.cols as int, colidx), sel_list(self.rows as int, rowidx), sel_list(self.cols as int, colidx).len() as int) <= imx::<I>(),
ensures res.is_ok() == (csc_canon(*self) && inr(sel_list(self.rows as int, rowidx), self.rows as int) && inr(sel_list(self.cols as int, colidx), self.cols as int)),
    match res { Ok(m) => csc_ok(m) && csc_canon(m) && m.rows == sel_list(self.rows as int, rowidx).len() && m.cols == sel_list(self.cols as int, colidx).len() &&
        (forall|r: int, c: int| 0 <= r < m.rows && 0 <= c < m.cols ==> #[trigger] csc_at(m, r, c) == csc_at(*self, sel_list(self.rows as int, rowidx)[r].iv(), sel_list(self.cols as int, colidx)[c].iv())), Err(_) => true },
@pre 0
    let ghost gr0 = rowidx_full@.len();
@loop 0
invariant self.rows <= imx::<I>(), rowidx_full.len() == (if gr0 == self.rows { self.rows as int } else { i as int }), gr0 == self.rows || gr0 == 0, forall|t: int| 0 <= t < i ==> (#[trigger] rowidx_full[t]).iv() == t,
@loop 1
invariant forall|t: int| 0 <= t < vpi1 ==> 0 <= (#[trigger] rowidx[t]).iv() < self.rows,
@top 1
    proof { let z = rowidx[vpi1 as int]; }
@pre 2
    let ghost gc0 = colidx_full@.len();
@loop 2
invariant self.cols <= imx::<I>(), colidx_full.len() == (if gc0 == self.cols { self.cols as int } else { i as int }), gc0 == self.cols || gc0 == 0, forall|t: int| 0 <= t < i ==> (#[trigger] colidx_full[t]).iv() == t,
@loop 3
invariant forall|t: int| 0 <= t < vpi3 ==> 0 <= (#[trigger] colidx[t]).iv() < self.cols,
@top 3
    proof { let z = colidx[vpi3 as int]; }
@post 0
    proof { iota_is(self.rows as int, rowidx_full@); }
@post 2
    proof { iota_is(self.cols as int, colidx_full@); }
@before csr_select 0
    proof {
        strict_more(self.cols as int, self.colptr@, self.rowidx@);
        assert(sel_pre(self.cols as int, self.rows as int, self.colptr@, self.rowidx@, self.values@, colidx@, rowidx@));
    }
@after csr_select 0
    proof { assert(sel_val(self.colptr@, self.rowidx@, self.values@, colidx@, rowidx@, b_p@, b_j@, b_x@)); 
        assert forall|r: int, c: int| 0 <= r < rowidx.len() && 0 <= c < colidx.len() implies #[trigger] ent(b_p@, b_j@, b_x@, c, r) == csc_at(*self, rowidx[r].iv(), colidx[c].iv()) by {}
    }

@fn csc::CSC::add
@props C08 C17
@sig
requires csc_ok(*self), csc_ok(*x), self.rows == x.rows && self.cols == x.cols ==> csc_nnz(*self) + csc_nnz(*x) <= imx::<I>(),
ensures res.is_ok() == (self.rows == x.rows && self.cols == x.cols),
    match res { Ok(m) => csc_ok(m) && m.rows == self.rows && m.cols == self.cols && distinct_lines(m.cols as int, m.colptr@, m.rowidx@) &&
        (forall|k: int| 0 <= k < csc_nnz(m) ==> (#[trigger] m.values[k]).sv() != C::zero()) && (csc_canon(*self) && csc_canon(*x) ==> csc_canon(m)) &&
        (forall|r: int, c: int| 0 <= r < m.rows && 0 <= c < m.cols ==> #[trigger] csc_at(m, r, c) == csc_at(*self, r, c).add(csc_at(*x, r, c))), Err(_) => true },
@after csr_add_csr 0
    let ghost (gj, gx) = (rowidx@, values@);
    let ghost ff = |a: C, b: C| a.add(b);
    proof { num_all::<I, T>(ff, self.cols as int, self.rows as int, self.colptr@, self.rowidx@, self.values@, x.colptr@, x.rowidx@, x.values@, colptr@, rowidx@, values@); }
@before CSC::new 0
    proof {
        same_store_ok(self.cols as int, self.rows as int, colptr@, gj, gx, rowidx@, values@);
        assert forall|r: int, c: int| 0 <= r < self.rows && 0 <= c < self.cols implies #[trigger] ent(colptr@, rowidx@, values@, c, r) == csc_at(*self, r, c).add(csc_at(*x, r, c)) by {
            assert(ent(colptr@, gj, gx, c, r) == ff(csc_at(*self, r, c), csc_at(*x, r, c))); }
        assert forall|k: int| 0 <= k < colptr[self.cols as int].iv() implies (#[trigger] values[k]).sv() != C::zero() by { let z = gx[k]; }
    }

@fn csc::CSC::subtract
@props C08 C17
@sig
requires csc_ok(*self), csc_ok(*x), self.rows == x.rows && self.cols == x.cols ==> csc_nnz(*self) + csc_nnz(*x) <= imx::<I>(),
ensures res.is_ok() == (self.rows == x.rows && self.cols == x.cols),
    match res { Ok(m) => csc_ok(m) && m.rows == self.rows && m.cols == self.cols && distinct_lines(m.cols as int, m.colptr@, m.rowidx@) &&
        (forall|k: int| 0 <= k < csc_nnz(m) ==> (#[trigger] m.values[k]).sv() != C::zero()) && (csc_canon(*self) && csc_canon(*x) ==> csc_canon(m)) &&
        (forall|r: int, c: int| 0 <= r < m.rows && 0 <= c < m.cols ==> #[trigger] csc_at(m, r, c) == csc_at(*self, r, c).sub(csc_at(*x, r, c))), Err(_) => true },
@after csr_sub_csr 0
    let ghost (gj, gx) = (rowidx@, values@);
    let ghost ff = |a: C, b: C| a.sub(b);
    proof { num_all::<I, T>(ff, self.cols as int, self.rows as int, self.colptr@, self.rowidx@, self.values@, x.colptr@, x.rowidx@, x.values@, colptr@, rowidx@, values@); }
@before CSC::new 0
    proof {
        same_store_ok(self.cols as int, self.rows as int, colptr@, gj, gx, rowidx@, values@);
        assert forall|r: int, c: int| 0 <= r < self.rows && 0 <= c < self.cols implies #[trigger] ent(colptr@, rowidx@, values@, c, r) == csc_at(*self, r, c).sub(csc_at(*x, r, c)) by {
            assert(ent(colptr@, gj, gx, c, r) == ff(csc_at(*self, r, c), csc_at(*x, r, c))); }
        assert forall|k: int| 0 <= k < colptr[self.cols as int].iv() implies (#[trigger] values[k]).sv() != C::zero() by { let z = gx[k]; }
    }

@fn csc::CSC::to_csr
@props C01
@sig
requires csc_ok(*self),
ensures csr_ok(res), res.rows == self.rows, res.cols == self.cols, csr_nnz(res) == csc_nnz(*self), res.values.len() == csc_nnz(*self), res.colidx.len() == csc_nnz(*self),
    sorted_lines(res.rows as int, res.rowptr@, res.colidx@),
    forall|r: int, c: int| 0 <= r < self.rows && 0 <= c < self.cols ==> #[trigger] csr_vals(res, r, c) == csc_vals(*self, r, c),
    forall|r: int, c: int| 0 <= r < self.rows && 0 <= c < self.cols ==> #[trigger] csr_at(res, r, c) == csc_at(*self, r, c),
@after csr_tocsc 0
    proof {
        grouped_vals(self.rowidx@, self.values@, csc_nnz(*self), self.rows as int, self.colptr@, self.cols as int, rowptr@, colidx@, values@);
        assert forall|r: int, c: int| 0 <= r < self.rows && 0 <= c < self.cols implies #[trigger] vall(rowptr@, colidx@, values@, r, c) == csc_vals(*self, r, c) by {}
        assert forall|r: int, c: int| 0 <= r < self.rows && 0 <= c < self.cols implies #[trigger] ent(rowptr@, colidx@, values@, r, c) == csc_at(*self, r, c) by {}
    }

@fn csc::CSC::to_coo
@props C03
@sig
requires csc_ok(*self),
ensures coo_ok(res), res.rows == self.rows, res.cols == self.cols, res.values.len() == csc_nnz(*self), expanded(self.cols as int, self.colptr@, res.colidx@),
    res.rowidx@ == self.rowidx@.subrange(0, csc_nnz(*self)), res.values@ == self.values@.subrange(0, csc_nnz(*self)),
    forall|r: int, c: int| 0 <= c < self.cols ==> #[trigger] coo_at(res, r, c) == csc_at(*self, r, c),
@after csr_tocoo 0
    proof {
        assert(rowidx@ =~= self.rowidx@.subrange(0, csc_nnz(*self)));
        assert(values@ =~= self.values@.subrange(0, csc_nnz(*self)));
        expanded_csum(self.cols as int, self.rows as int, self.colptr@, self.rowidx@, self.values@, colidx@, rowidx@, values@);
    }

@fn csc::CSC::to_dense
@props C05
@sig
requires csc_ok(*self),
ensures res.len() == self.rows, forall|r: int| 0 <= r < self.rows ==> (#[trigger] res[r]).len() == self.cols,
    forall|r: int, c: int| 0 <= r < self.rows && 0 <= c < self.cols ==> #[trigger] res[r][c].sv() == csc_at(*self, r, c),

@fn csc::CSC::diagonal
@props C13
@sig
requires csc_ok(*self),
ensures res.len() == if self.rows <= self.cols { self.rows } else { self.cols },
    forall|i: int| 0 <= i < res.len() ==> (#[trigger] res[i]).sv() == csc_at(*self, i, i),

@fn csc::CSC::compose
@props C16 C17
@sig
requires csc_ok(*j11), csc_ok(*j12), csc_ok(*j21), csc_ok(*j22),
    j11.cols + j12.cols <= imx::<I>(), j21.cols + j22.cols <= imx::<I>(), j11.rows + j21.rows <= imx::<I>(),
    csc_nnz(*j11) + csc_nnz(*j12) + csc_nnz(*j21) + csc_nnz(*j22) <= imx::<I>(),
ensures res.is_ok() == (j11.rows == j12.rows && j21.rows == j22.rows && j11.cols + j12.cols == j21.cols + j22.cols),
    match res { Ok(m) => csc_ok(m) && csc_canon(m) && m.rows == j11.rows + j21.rows && m.cols == j11.cols + j12.cols &&
        (forall|r: int, c: int| 0 <= r < m.rows && 0 <= c < m.cols ==> #[trigger] csc_at(m, r, c) ==
            if r < j11.rows { if c < j11.cols { csc_at(*j11, r, c) } else { csc_at(*j12, r, c - j11.cols) } }
            else { if c < j21.cols { csc_at(*j21, r - j11.rows, c) } else { csc_at(*j22, r - j11.rows, c - j21.cols) } }), Err(_) => true },
