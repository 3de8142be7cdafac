@fn dok::DoK::new
@props C18
@items dok::DoK
@sig
ensures res.rows == rows, res.cols == cols, res.values@ == Map::<(I, I), T>::empty(), dok_ok(rows as int, cols as int, res.values@),
@top
    broadcast use vstd::std_specs::hash::group_hash_axioms; broadcast use hash_keys;

@fn dok::DoK::with_capacity
@props C18
@items dok::DoK
@sig
ensures res.rows == rows, res.cols == cols, res.values@ == Map::<(I, I), T>::empty(), dok_ok(rows as int, cols as int, res.values@),
@top
    broadcast use vstd::std_specs::hash::group_hash_axioms; broadcast use hash_keys;

@fn dok::DoK::rows
@props C18
@items dok::DoK
@sig
ensures res == self.rows,

@fn dok::DoK::cols
@props C18
@items dok::DoK
@sig
ensures res == self.cols,

@fn dok::DoK::nnz
@props C18
@items dok::DoK
@sig
ensures res == self.values@.len(),
@top
    broadcast use vstd::std_specs::hash::group_hash_axioms; broadcast use hash_keys;

@fn dok::DoK::get
@props C18
@items dok::DoK
@sub Some(&v) => v ==> Some(vpr_v) => *vpr_v
@sig
ensures res.sv() == dok_at(self.values@, i.iv(), j.iv()),
@top
    broadcast use vstd::std_specs::hash::group_hash_axioms; broadcast use hash_keys;
    proof { dok_key(self.values@, i, j); }

@fn dok::DoK::set
@props C17 C18
@items dok::DoK
@sig
requires old(self).rows <= imx::<I>(), old(self).cols <= imx::<I>(), dok_ok(old(self).rows as int, old(self).cols as int, old(self).values@),
ensures final(self).rows == old(self).rows, final(self).cols == old(self).cols, dok_ok(final(self).rows as int, final(self).cols as int, final(self).values@),
    res.is_ok() == (0 <= i.iv() < old(self).rows && 0 <= j.iv() < old(self).cols),
    res.is_err() ==> final(self).values@ == old(self).values@,
    res.is_ok() ==> forall|r: int, c: int| #[trigger] dok_at(final(self).values@, r, c) == if r == i.iv() && c == j.iv() { v.sv() } else { dok_at(old(self).values@, r, c) },
    res.is_ok() ==> final(self).values@ == dok_set(old(self).values@, i, j, v),
@top
    broadcast use vstd::std_specs::hash::group_hash_axioms; broadcast use hash_keys;
    let ghost gm = self.values@;
@end
    proof { dok_set_at(self.rows as int, self.cols as int, gm, i, j, v); }

@fn dok::DoK::add
@props C17 C18
@items dok::DoK
@sig
requires old(self).rows <= imx::<I>(), old(self).cols <= imx::<I>(), dok_ok(old(self).rows as int, old(self).cols as int, old(self).values@),
ensures final(self).rows == old(self).rows, final(self).cols == old(self).cols, dok_ok(final(self).rows as int, final(self).cols as int, final(self).values@),
    res.is_ok() == (0 <= i.iv() < old(self).rows && 0 <= j.iv() < old(self).cols),
    res.is_err() ==> final(self).values@ == old(self).values@,
    res.is_ok() ==> forall|r: int, c: int| #[trigger] dok_at(final(self).values@, r, c) == if r == i.iv() && c == j.iv() { dok_at(old(self).values@, r, c).add(v.sv()) } else { dok_at(old(self).values@, r, c) },

@fn dok::DoK::sub
@props C17 C18
@items dok::DoK
@sig
requires old(self).rows <= imx::<I>(), old(self).cols <= imx::<I>(), dok_ok(old(self).rows as int, old(self).cols as int, old(self).values@),
ensures final(self).rows == old(self).rows, final(self).cols == old(self).cols, dok_ok(final(self).rows as int, final(self).cols as int, final(self).values@),
    res.is_ok() == (0 <= i.iv() < old(self).rows && 0 <= j.iv() < old(self).cols),
    res.is_err() ==> final(self).values@ == old(self).values@,
    res.is_ok() ==> forall|r: int, c: int| #[trigger] dok_at(final(self).values@, r, c) == if r == i.iv() && c == j.iv() { dok_at(old(self).values@, r, c).sub(v.sv()) } else { dok_at(old(self).values@, r, c) },

@fn dok::DoK::from_dense
@props C05 C18
@items dok::DoK
@index 0 1
@sig
requires d.len() <= imx::<I>(), d.len() > 0 ==> d[0].len() <= imx::<I>() && d.len() * d[0].len() <= usize::MAX,
    forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).len() == d[0].len(),
ensures dok_ok(res.rows as int, res.cols as int, res.values@), res.rows == d.len(), d.len() > 0 ==> res.cols == d[0].len(), d.len() == 0 ==> res.cols == 0,
    forall|r: int, c: int| 0 <= r < res.rows && 0 <= c < res.cols ==> #[trigger] dok_at(res.values@, r, c) == d[r][c].sv(),
@top
    proof { let z: I = arbitrary(); z.law_range(); }
@loop 0
invariant m == d.len(), m > 0 ==> n == d[0].len(), mat.rows == m, mat.cols == n, m <= imx::<I>(), n <= imx::<I>(), dok_ok(m as int, n as int, mat.values@),
    dok_part(mat.values@, dgs(d@), n as int, vpi0 as int, 0),
@loop 1
invariant row.len() == n, mat.rows == m, mat.cols == n, m <= imx::<I>(), n <= imx::<I>(), dok_ok(m as int, n as int, mat.values@),
    0 <= i < m, row == d[i as int],
    dok_part(mat.values@, dgs(d@), n as int, i as int, vpi1 as int),
@top 1
    let ghost gm = mat.values@;
    let ghost g = dgs(d@);
    assert(v.sv() == g(i as int, j as int));
@bot 1
    proof {
        assert forall|r: int, c: int| #[trigger] dok_at(mat.values@, r, c) == if 0 <= c < n && 0 <= r && (r < i || r == i && c < j + 1) { g(r, c) } else { C::zero() } by { let z = dok_at(gm, r, c); }
        assert(dok_part(mat.values@, dgs(d@), n as int, i as int, j + 1));
    }
@post 1
    proof { assert(dok_part(mat.values@, dgs(d@), n as int, i + 1, 0)); }
@end
    proof { assert forall|r: int, c: int| 0 <= r < m && 0 <= c < n implies #[trigger] dok_at(mat.values@, r, c) == d[r][c].sv() by { let z = dgs(d@)(r, c); } }

@fn dok::DoK::to_dense
@props C18
@items dok::DoK
@mapiter 0
@sig
requires self.rows <= imx::<I>(), self.cols <= imx::<I>(), dok_ok(self.rows as int, self.cols as int, self.values@),
ensures res.len() == self.rows, forall|r: int| 0 <= r < self.rows ==> (#[trigger] res[r]).len() == self.cols,
    forall|r: int, c: int| 0 <= r < self.rows && 0 <= c < self.cols ==> #[trigger] res[r][c].sv() == dok_at(self.values@, r, c),
@top
    broadcast use vstd::std_specs::hash::group_hash_axioms; broadcast use hash_keys;
    let ghost mut es: Seq<((I, I), T)> = Seq::empty();
@loop 0
invariant d.len() == self.rows, forall|r: int| 0 <= r < self.rows ==> (#[trigger] d[r]).len() == self.cols,
    es =~= vpit0.seq().take(vpit0.index@ as int).map_values(|e: (&(I, I), &T)| (*e.0, *e.1)),
    forall|r: int, c: int| 0 <= r < self.rows && 0 <= c < self.cols ==> #[trigger] d[r][c].sv() == eat(es, es.len() as int, r, c),
@top 0
    let ghost (gd, ge) = (d@, es);
    assert(self.values@.contains_key((i, j)));
@bot 0
    proof {
        es = es.push(((i, j), v));
        assert forall|r: int, c: int| 0 <= r < self.rows && 0 <= c < self.cols implies #[trigger] d[r][c].sv() == eat(es, es.len() as int, r, c) by {
            let z = gd[r][c]; eat_ext(ge, es, ge.len() as int, r, c); }
    }
@post 0
    proof {
        entries_all(self.values@, es);
        assert forall|r: int, c: int| 0 <= r < self.rows && 0 <= c < self.cols implies #[trigger] d[r][c].sv() == dok_at(self.values@, r, c) by { eat_all(self.values@, es, r, c); }
    }

@fn dok::DoK::to_coo
@props C18
@items dok::DoK
@mapiter 0
@sig
requires self.rows <= imx::<I>(), self.cols <= imx::<I>(), dok_ok(self.rows as int, self.cols as int, self.values@),
ensures res.rows == self.rows, res.cols == self.cols, coo_ok(res), res.values.len() == self.values@.len(),
    forall|r: int, c: int| #[trigger] coo_at(res, r, c) == dok_at(self.values@, r, c),
@top
    broadcast use vstd::std_specs::hash::group_hash_axioms; broadcast use hash_keys;
    let ghost mut es: Seq<((I, I), T)> = Seq::empty();
@loop 0
invariant es =~= vpit0.seq().take(vpit0.index@ as int).map_values(|e: (&(I, I), &T)| (*e.0, *e.1)),
    rowidx.len() == es.len(), colidx.len() == es.len(), values.len() == es.len(),
    forall|t: int| 0 <= t < es.len() ==> #[trigger] es[t] == ((rowidx[t], colidx[t]), values[t]),
@bot 0
    proof { es = es.push(((i, j), v)); }
@post 0
    proof {
        entries_all(self.values@, es);
        assert forall|t: int| 0 <= t < es.len() implies 0 <= (#[trigger] rowidx[t]).iv() < self.rows by { assert(self.values@.contains_key(es[t].0)); }
        assert forall|t: int| 0 <= t < es.len() implies 0 <= (#[trigger] colidx[t]).iv() < self.cols by { assert(self.values@.contains_key(es[t].0)); }
        assert forall|r: int, c: int| #[trigger] csum(rowidx@, colidx@, values@, es.len() as int, r, c) == dok_at(self.values@, r, c) by {
            eat_csum(self.values@, es, rowidx@, colidx@, values@, es.len() as int, r, c); eat_all(self.values@, es, r, c); }
    }

@fn dok::DoK::to_csc
@props C18
@items dok::DoK
@sig
requires self.rows <= imx::<I>(), self.cols <= imx::<I>(), dok_ok(self.rows as int, self.cols as int, self.values@), self.values@.len() <= I::imax(), self.values@.len() <= isize::MAX,
ensures csc_ok(res), res.rows == self.rows, res.cols == self.cols, csc_canon(res),
    forall|r: int, c: int| 0 <= c < self.cols ==> #[trigger] csc_at(res, r, c) == dok_at(self.values@, r, c),

@fn dok::DoK::to_csr
@props C18
@items dok::DoK
@sig
requires self.rows <= imx::<I>(), self.cols <= imx::<I>(), dok_ok(self.rows as int, self.cols as int, self.values@), self.values@.len() <= I::imax(), self.values@.len() <= isize::MAX,
ensures csr_ok(res), res.rows == self.rows, res.cols == self.cols, csr_canon(res),
    forall|r: int, c: int| 0 <= r < self.rows ==> #[trigger] csr_at(res, r, c) == dok_at(self.values@, r, c),
