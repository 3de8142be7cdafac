@fn coo::Coo::new
@props C17
@sig
ensures res.is_ok() == (rowidx.len() == values.len() && colidx.len() == values.len()),
    match res { Ok(m) => m.rows == rows && m.cols == cols && m.rowidx == rowidx && m.colidx == colidx && m.values == values, Err(_) => true },

@fn coo::Coo::with_size
@props C05
@sig
ensures res.rows == rows, res.cols == cols, res.rowidx.len() == 0, res.colidx.len() == 0, res.values.len() == 0,
    rows <= imx::<I>() && cols <= imx::<I>() ==> coo_ok(res),
    forall|r: int, c: int| #[trigger] coo_at(res, r, c) == C::zero(),

@fn coo::Coo::with_capacity
@props C05
@sig
ensures res.rows == rows, res.cols == cols, res.rowidx.len() == 0, res.colidx.len() == 0, res.values.len() == 0,
    rows <= imx::<I>() && cols <= imx::<I>() ==> coo_ok(res),
    forall|r: int, c: int| #[trigger] coo_at(res, r, c) == C::zero(),

@fn coo::Coo::from_dense
@props C05
@index 0 1
@sig
requires a.len() <= imx::<I>(), a.len() > 0 ==> a[0].len() <= imx::<I>() && a.len() * a[0].len() <= usize::MAX,
    forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).len() == a[0].len(),
ensures coo_ok(res), res.rows == a.len(), a.len() > 0 ==> res.cols == a[0].len(), a.len() == 0 ==> res.cols == 0,
    gcoo(dgr(a@), res.cols as int, res.rows as int, 0, res.rowidx@, res.colidx@, res.values@),
    forall|r: int, c: int| 0 <= r < res.rows && 0 <= c < res.cols ==> #[trigger] coo_at(res, r, c) == a[r][c].sv(),
@top
    let ghost g = dgr(a@);
    proof { let z: I = arbitrary(); z.law_range(); }
@loop 0
invariant m == a.len(), a.len() > 0 ==> n == a[0].len(), g == dgr(a@), gcoo(g, n as int, vpi0 as int, 0, rowidx@, colidx@, values@),
@loop 1
invariant r.len() == n, *r == a[i as int], 
    gcoo(g, n as int, i as int, vpi1 as int, rowidx@, colidx@, values@),
@top 1
    let ghost (gr, gc, gx) = (rowidx@, colidx@, values@);
    assert(r[vpi1 as int] == a[i as int][vpi1 as int]);
@bot 1
    proof {
        assert(g(i as int, vpi1 as int) == v.sv());
        if v.sv() != C::zero() { gcoo_push(g, n as int, i as int, vpi1 as int, gr, gc, gx, rowidx[gr.len() as int], colidx[gr.len() as int], v);
            assert(rowidx@ =~= gr.push(rowidx[gr.len() as int])); assert(colidx@ =~= gc.push(colidx[gr.len() as int])); assert(values@ =~= gx.push(v)); }
        else { gcoo_skip(g, n as int, i as int, vpi1 as int, gr, gc, gx); }
    }
@post 1
    proof { gcoo_row(g, n as int, i as int, rowidx@, colidx@, values@); }
@end
    proof {
        assert forall|k: int| 0 <= k < values.len() implies 0 <= (#[trigger] rowidx[k]).iv() < m by { let z = rowidx@[k]; }
        assert forall|k: int| 0 <= k < values.len() implies 0 <= (#[trigger] colidx[k]).iv() < n by { let z = rowidx@[k]; }
        assert forall|r: int, c: int| 0 <= r < m && 0 <= c < n implies #[trigger] csum(rowidx@, colidx@, values@, values.len() as int, r, c) == a[r][c].sv() by {
            assert(gcell(n as int, m as int, 0, r, c)); assert(g(r, c) == a[r][c].sv()); }
    }

@fn coo::Coo::with_diagonal
@props C05
@sig
requires diag.len() <= imx::<I>(),
ensures coo_ok(res), res.rows == diag.len(), res.cols == diag.len(), res.values@ == diag@,
    forall|r: int, c: int| 0 <= r < res.rows && 0 <= c < res.cols ==> #[trigger] coo_at(res, r, c) == if r == c { diag[r].sv() } else { C::zero() },
@loop 0
invariant rowidx.len() == n, colidx.len() == n, values.len() == n,
    forall|k: int| 0 <= k < i ==> (#[trigger] rowidx[k]).iv() == k, forall|k: int| 0 <= k < i ==> (#[trigger] colidx[k]).iv() == k,
    forall|k: int| 0 <= k < i ==> (#[trigger] values[k]) == diag[k],
@end
    proof { assert(values@ =~= diag@); csum_diag(rowidx@, colidx@, values@, n as int); }

@fn coo::Coo::identity
@props C05
@sig
requires n <= imx::<I>(),
ensures coo_ok(res), res.rows == n, res.cols == n, res.values.len() == n,
    forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] coo_at(res, r, c) == if r == c { C::one() } else { C::zero() },
@loop 0
invariant rowidx.len() == n, colidx.len() == n, values.len() == n,
    forall|k: int| 0 <= k < i ==> (#[trigger] rowidx[k]).iv() == k, forall|k: int| 0 <= k < i ==> (#[trigger] colidx[k]).iv() == k,
    forall|k: int| 0 <= k < i ==> (#[trigger] values[k]).sv() == C::one(),
@end
    proof { csum_diag(rowidx@, colidx@, values@, n as int); }

@fn coo::Coo::rows
@props C17
@sig
ensures res == self.rows,

@fn coo::Coo::cols
@props C17
@sig
ensures res == self.cols,

@fn coo::Coo::rowidx
@props C17
@sig
ensures res@ == self.rowidx@,

@fn coo::Coo::colidx
@props C17
@sig
ensures res@ == self.colidx@,

@fn coo::Coo::values
@props C17
@sig
ensures res@ == self.values@,

@fn coo::Coo::nnz
@props C11
@sig
ensures res == self.values.len(),

@fn coo::Coo::values_mut
@props C23
@sig
ensures res@ == old(self).values@, final(self).rows == old(self).rows, final(self).cols == old(self).cols, final(self).rowidx == old(self).rowidx,
    final(self).colidx == old(self).colidx, final(self).values@ == final(res)@,

@fn coo::Coo::push
@props C02
@sig
ensures final(self).rows == old(self).rows, final(self).cols == old(self).cols, final(self).rowidx@ == old(self).rowidx@.push(row),
    final(self).colidx@ == old(self).colidx@.push(col), final(self).values@ == old(self).values@.push(v),
    coo_ok(*old(self)) && 0 <= row.iv() < old(self).rows && 0 <= col.iv() < old(self).cols ==> coo_ok(*final(self)) &&
        forall|r: int, c: int| #[trigger] coo_at(*final(self), r, c) == coo_at(*old(self), r, c).add(if r == row.iv() && c == col.iv() { v.sv() } else { C::zero() }),
@end
    proof {
        if coo_ok(*old(self)) && 0 <= row.iv() < old(self).rows && 0 <= col.iv() < old(self).cols {
            assert forall|k: int| 0 <= k < self.values.len() implies 0 <= (#[trigger] self.rowidx[k]).iv() < self.rows by { if k < old(self).values.len() { let z = old(self).rowidx[k]; } }
            assert forall|k: int| 0 <= k < self.values.len() implies 0 <= (#[trigger] self.colidx[k]).iv() < self.cols by { if k < old(self).values.len() { let z = old(self).colidx[k]; } }
            assert forall|r: int, c: int| #[trigger] coo_at(*self, r, c) == coo_at(*old(self), r, c).add(if r == row.iv() && c == col.iv() { v.sv() } else { C::zero() }) by {
                csum_ext(old(self).rowidx@, old(self).colidx@, old(self).values@, self.rowidx@, self.colidx@, self.values@, old(self).values.len() as int, r, c); }
        }
    }

@fn coo::Coo::extend
@props C02
@sig
ensures final(self).rows == old(self).rows, final(self).cols == old(self).cols, final(self).rowidx@ == old(self).rowidx@ + row@,
    final(self).colidx@ == old(self).colidx@ + col@, final(self).values@ == old(self).values@ + v@,

@fn coo::Coo::transpose
@props C04
@sig
ensures res.rows == self.cols, res.cols == self.rows, res.rowidx == self.colidx, res.colidx == self.rowidx, res.values == self.values,
    coo_ok(self) ==> coo_ok(res),
    forall|r: int, c: int| #[trigger] coo_at(res, c, r) == coo_at(self, r, c),
@end
    proof { assert forall|r: int, c: int| #[trigger] csum(self.colidx@, self.rowidx@, self.values@, self.values.len() as int, c, r) == coo_at(self, r, c) by {
        csum_swap(self.rowidx@, self.colidx@, self.values@, self.values.len() as int, r, c); } }

@fn coo::Coo::t
@props C04
@sig
ensures res.rows == self.cols, res.cols == self.rows, res.rowidx@ == self.colidx@, res.colidx@ == self.rowidx@, res.values@ == self.values@,
    coo_ok(*self) ==> coo_ok(res),
    forall|r: int, c: int| #[trigger] coo_at(res, c, r) == coo_at(*self, r, c),
@end
    proof { assert forall|r: int, c: int| #[trigger] csum(self.colidx@, self.rowidx@, self.values@, self.values.len() as int, c, r) == coo_at(*self, r, c) by {
        csum_swap(self.rowidx@, self.colidx@, self.values@, self.values.len() as int, r, c); } }

@fn coo::Coo::to_csr
@props C02
@sig
requires coo_ok(*self), self.values.len() <= I::imax(), self.values.len() <= isize::MAX,
ensures csr_ok(res), res.rows == self.rows, res.cols == self.cols, csr_canon(res), csr_nnz(res) <= self.values.len(),
    forall|r: int, c: int| 0 <= r < self.rows ==> #[trigger] csr_at(res, r, c) == coo_at(*self, r, c),
@before sum_duplicates 0
    let ghost ss = a_mat;
    proof { assert forall|r: int, c: int| 0 <= r < self.rows implies #[trigger] csr_at(ss, r, c) == coo_at(*self, r, c) by { let z = ent(ss.rowptr@, ss.colidx@, ss.values@, r, c); } }

@fn coo::Coo::to_csc
@props C02
@sig
requires coo_ok(*self), self.values.len() <= I::imax(), self.values.len() <= isize::MAX,
ensures csc_ok(res), res.rows == self.rows, res.cols == self.cols, csc_canon(res), csc_nnz(res) <= self.values.len(),
    forall|r: int, c: int| 0 <= c < self.cols ==> #[trigger] csc_at(res, r, c) == coo_at(*self, r, c),
@before sum_duplicates 0
    let ghost ss = a_mat;
    proof { assert forall|r: int, c: int| 0 <= c < self.cols implies #[trigger] csc_at(ss, r, c) == coo_at(*self, r, c) by { let z = ent(ss.colptr@, ss.rowidx@, ss.values@, c, r);
        csum_swap(self.rowidx@, self.colidx@, self.values@, self.values.len() as int, r, c); } }

@fn coo::Coo::to_dense
@props C05
@sig
requires coo_ok(*self),
ensures res.len() == self.rows, forall|r: int| 0 <= r < self.rows ==> (#[trigger] res[r]).len() == self.cols,
    forall|r: int, c: int| 0 <= r < self.rows && 0 <= c < self.cols ==> #[trigger] res[r][c].sv() == coo_at(*self, r, c),
@loop 0
invariant dense.len() == rows, forall|r: int| 0 <= r < rows ==> (#[trigger] dense[r]).len() == cols,
    forall|r: int, c: int| 0 <= r < rows && 0 <= c < cols ==> #[trigger] dense[r][c].sv() == csum(self.rowidx@, self.colidx@, self.values@, n as int, r, c),
@top 0
    let ghost gd = dense@;
    assert(0 <= self.rowidx[n as int].iv() < rows && 0 <= self.colidx[n as int].iv() < cols);
@bot 0
    proof {
        assert forall|r: int, c: int| 0 <= r < rows && 0 <= c < cols implies #[trigger] dense[r][c].sv() == csum(self.rowidx@, self.colidx@, self.values@, n + 1, r, c) by {
            let z = gd[r][c];
            assert(gd[r][c].sv() == csum(self.rowidx@, self.colidx@, self.values@, n as int, r, c));
        }
    }

@fn coo::Coo::upper
@props C13
@sig
requires coo_ok(*self), self.values.len() / 2 + self.cols <= usize::MAX, forall|i: int| 0 <= i < self.values.len() ==> I::imin() <= (#[trigger] self.rowidx[i]).iv() + k.iv() <= I::imax(),
ensures coo_ok(res), res.rows == self.rows, res.cols == self.cols,
    res.rowidx@ == at_pos(self.rowidx@, upp(self.rowidx@, self.colidx@, self.values.len() as int, k.iv())),
    res.colidx@ == at_pos(self.colidx@, upp(self.rowidx@, self.colidx@, self.values.len() as int, k.iv())),
    res.values@ == at_pos(self.values@, upp(self.rowidx@, self.colidx@, self.values.len() as int, k.iv())),
@top
    proof { assert(at_pos(self.rowidx@, Seq::empty()) =~= Seq::<I>::empty()); assert(at_pos(self.values@, Seq::empty()) =~= Seq::<T>::empty()); assert(at_pos(self.colidx@, Seq::empty()) =~= Seq::<I>::empty()); }
@loop 0
invariant rowidx@ == at_pos(self.rowidx@, upp(self.rowidx@, self.colidx@, i as int, k.iv())),
    colidx@ == at_pos(self.colidx@, upp(self.rowidx@, self.colidx@, i as int, k.iv())),
    values@ == at_pos(self.values@, upp(self.rowidx@, self.colidx@, i as int, k.iv())),
@bot 0
    proof { upp_step(self.rowidx@, self.colidx@, i as int, k.iv(), self.rowidx@); upp_step(self.rowidx@, self.colidx@, i as int, k.iv(), self.colidx@); upp_step(self.rowidx@, self.colidx@, i as int, k.iv(), self.values@); }
@end
    proof {
        let p = upp(self.rowidx@, self.colidx@, self.values.len() as int, k.iv());
        upp_in(self.rowidx@, self.colidx@, self.values.len() as int, k.iv());
        assert forall|t: int| 0 <= t < values.len() implies 0 <= (#[trigger] rowidx[t]).iv() < self.rows by { let q = p[t]; let z = self.rowidx[q]; }
        assert forall|t: int| 0 <= t < values.len() implies 0 <= (#[trigger] colidx[t]).iv() < self.cols by { let q = p[t]; let z = self.colidx[q]; }
    }

@fn coo::Coo::diagonal
@props C13
@sig
requires coo_ok(*self),
ensures res.len() == if self.rows <= self.cols { self.rows } else { self.cols },
    forall|i: int| 0 <= i < res.len() ==> (#[trigger] res[i]).sv() == coo_at(*self, i, i),
@loop 0
invariant d.len() == n, forall|q: int| 0 <= q < n ==> (#[trigger] d[q]).sv() == csum(self.rowidx@, self.colidx@, self.values@, i as int, q, q),
@top 0
    let ghost gd = d@;
    assert(0 <= self.rowidx[i as int].iv() < self.rows && 0 <= self.colidx[i as int].iv() < self.cols);
@bot 0
    proof { assert forall|q: int| 0 <= q < n implies (#[trigger] d[q]).sv() == csum(self.rowidx@, self.colidx@, self.values@, i + 1, q, q) by { let z = gd[q]; } }
