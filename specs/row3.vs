@fn row::csr_tocsc
@props C01
@sig
requires wfx(n_row as int, n_col as int, a_p@, a_j@, a_x@), old(b_p).len() >= n_col + 1,
    old(b_i).len() >= a_p[n_row as int].iv(), old(b_x).len() >= a_p[n_row as int].iv(), n_row <= I::imax() + 1, n_col < usize::MAX,
ensures final(b_p).len() == old(b_p).len(), final(b_i).len() == old(b_i).len(), final(b_x).len() == old(b_x).len(),
    grouped_p(a_j@, a_p[n_row as int].iv(), n_col as int, final(b_p)@),
    grouped_v(a_j@, a_p[n_row as int].iv(), n_col as int, a_x@, final(b_x)@),
    grouped_r(a_j@, a_p[n_row as int].iv(), n_col as int, a_p@, n_row as int, final(b_i)@),
    wfx(n_col as int, n_row as int, final(b_p)@, final(b_i)@, final(b_x)@),
    final(b_p)[n_col as int].iv() == a_p[n_row as int].iv(),
    sorted_lines(n_col as int, final(b_p)@, final(b_i)@),
    forall|r: int, c: int| 0 <= r < n_row && 0 <= c < n_col ==> #[trigger] ent(final(b_p)@, final(b_i)@, final(b_x)@, c, r) == ent(a_p@, a_j@, a_x@, r, c),
@top
    proof { ptr_all(n_row as int, a_p@); off_total(a_j@, a_p[n_row as int].iv(), n_col as int); }
    let ghost nz = a_p[n_row as int].iv();
@loop 0
invariant
    b_p.len() == old(b_p).len(),
    forall|c: int| 0 <= c < n_col ==> (#[trigger] b_p[c]).iv() == pick(a_j@, n as int, c).len(),
@top 0
    proof { pick_in(a_j@, n as int, a_j[n as int].iv()); pick_next(a_j@, n as int, nz, a_j[n as int].iv()); pick_in(a_j@, nz, a_j[n as int].iv()); }
@loop 1
invariant
    b_p.len() == old(b_p).len(), cumsum.iv() == off(a_j@, nz, col as int),
    forall|c: int| 0 <= c < col ==> (#[trigger] b_p[c]).iv() == off(a_j@, nz, c),
    forall|c: int| col <= c < n_col ==> (#[trigger] b_p[c]).iv() == pick(a_j@, nz, c).len(),
@top 1
    proof { off_mono(a_j@, nz, col + 1, n_col as int); off_mono(a_j@, nz, 0, col as int); }
@pre 2
    assert forall|c: int| 0 <= c < n_col implies (#[trigger] b_p[c]).iv() == off(a_j@, nz, c) + pick(a_j@, 0, c).len() by {}
@loop 2
invariant
    b_p.len() == old(b_p).len(), b_i.len() == old(b_i).len(), b_x.len() == old(b_x).len(),
    forall|c: int| 0 <= c < n_col ==> (#[trigger] b_p[c]).iv() == off(a_j@, nz, c) + pick(a_j@, a_p[row as int].iv(), c).len(),
    grouped_vn(a_j@, nz, a_p[row as int].iv(), n_col as int, a_x@, b_x@),
    grouped_rn(a_j@, nz, a_p[row as int].iv(), n_col as int, a_p@, n_row as int, b_i@),
@loop 3
invariant
    b_p.len() == old(b_p).len(), b_i.len() == old(b_i).len(), b_x.len() == old(b_x).len(),
    forall|c: int| 0 <= c < n_col ==> (#[trigger] b_p[c]).iv() == off(a_j@, nz, c) + pick(a_j@, jj as int, c).len(),
    grouped_vn(a_j@, nz, jj as int, n_col as int, a_x@, b_x@),
    grouped_rn(a_j@, nz, jj as int, n_col as int, a_p@, n_row as int, b_i@),
@top 3
    let ghost c0 = a_j[jj as int].iv();
    let ghost t0 = pick(a_j@, jj as int, c0).len() as int;
    proof { pick_next(a_j@, jj as int, nz, c0); off_mono(a_j@, nz, c0, n_col as int); off_mono(a_j@, nz, 0, c0); }
    let ghost px = b_x@; let ghost pi = b_i@;
@bot 3
    proof {
        assert(inline(a_p@, row as int, jj as int));
        group_step(a_j@, nz, jj as int, n_col as int, a_p@, n_row as int, a_x@, pi, px, b_i@, b_x@);
    }
@loop 4
invariant
    b_p.len() == old(b_p).len(), col <= n_col ==> last.iv() == off(a_j@, nz, col as int),
    forall|c: int| 0 <= c < col ==> (#[trigger] b_p[c]).iv() == off(a_j@, nz, c),
    forall|c: int| col <= c < n_col ==> (#[trigger] b_p[c]).iv() == off(a_j@, nz, c + 1),
@post 4
    proof {
        assert forall|c: int| 0 <= c <= n_col implies (#[trigger] b_p[c]).iv() == off(a_j@, nz, c) by {}
        grouped_sorted(a_j@, nz, n_col as int, a_p@, n_row as int, b_p@, b_i@);
        assert forall|r: int, c: int| 0 <= r < n_row && 0 <= c < n_col implies #[trigger] ent(b_p@, b_i@, b_x@, c, r) == ent(a_p@, a_j@, a_x@, r, c) by {
            grouped_ent(a_j@, a_x@, nz, n_col as int, a_p@, n_row as int, b_p@, b_i@, b_x@, r, c);
        }
    }

@fn col::csc_tocsr
@props C01
@sig
requires wfx(n_col as int, n_row as int, a_p@, a_i@, a_x@), old(b_p).len() >= n_row + 1,
    old(b_j).len() >= a_p[n_col as int].iv(), old(b_x).len() >= a_p[n_col as int].iv(), n_col <= I::imax() + 1, n_row < usize::MAX,
ensures final(b_p).len() == old(b_p).len(), final(b_j).len() == old(b_j).len(), final(b_x).len() == old(b_x).len(),
    grouped_p(a_i@, a_p[n_col as int].iv(), n_row as int, final(b_p)@),
    grouped_v(a_i@, a_p[n_col as int].iv(), n_row as int, a_x@, final(b_x)@),
    grouped_r(a_i@, a_p[n_col as int].iv(), n_row as int, a_p@, n_col as int, final(b_j)@),
    wfx(n_row as int, n_col as int, final(b_p)@, final(b_j)@, final(b_x)@),
    final(b_p)[n_row as int].iv() == a_p[n_col as int].iv(),
    sorted_lines(n_row as int, final(b_p)@, final(b_j)@),
    forall|r: int, c: int| 0 <= r < n_row && 0 <= c < n_col ==> #[trigger] ent(final(b_p)@, final(b_j)@, final(b_x)@, r, c) == ent(a_p@, a_i@, a_x@, c, r),

@fn coord::coo_tocsr
@props C02
@sig
requires wfc(n_row as int, _n_col as int, nnz as int, a_i@, a_j@, a_x@), old(b_p).len() >= n_row + 1,
    old(b_j).len() >= nnz, old(b_x).len() >= nnz, nnz <= I::imax(), nnz <= isize::MAX, n_row < usize::MAX,
ensures final(b_p).len() == old(b_p).len(), final(b_j).len() == old(b_j).len(), final(b_x).len() == old(b_x).len(),
    grouped_p(a_i@, nnz as int, n_row as int, final(b_p)@),
    grouped_v(a_i@, nnz as int, n_row as int, a_j@, final(b_j)@),
    grouped_v(a_i@, nnz as int, n_row as int, a_x@, final(b_x)@),
    wfx(n_row as int, _n_col as int, final(b_p)@, final(b_j)@, final(b_x)@),
    final(b_p)[n_row as int].iv() == nnz,
    forall|r: int, c: int| 0 <= r < n_row ==> #[trigger] ent(final(b_p)@, final(b_j)@, final(b_x)@, r, c) == csum(a_i@, a_j@, a_x@, nnz as int, r, c),
@top
    proof { off_total(a_i@, nnz as int, n_row as int); }
    let ghost nz = nnz as int;
@loop 0
invariant
    b_p.len() == old(b_p).len(),
    forall|c: int| 0 <= c < n_row ==> (#[trigger] b_p[c]).iv() == pick(a_i@, n as int, c).len(),
@top 0
    proof { pick_in(a_i@, n as int, a_i[n as int].iv()); pick_next(a_i@, n as int, nz, a_i[n as int].iv()); pick_in(a_i@, nz, a_i[n as int].iv()); }
@loop 1
invariant
    b_p.len() == old(b_p).len(), cumsum.iv() == off(a_i@, nz, i as int),
    forall|c: int| 0 <= c < i ==> (#[trigger] b_p[c]).iv() == off(a_i@, nz, c),
    forall|c: int| i <= c < n_row ==> (#[trigger] b_p[c]).iv() == pick(a_i@, nz, c).len(),
@top 1
    proof { off_mono(a_i@, nz, i + 1, n_row as int); off_mono(a_i@, nz, 0, i as int); }
@pre 2
    assert forall|c: int| 0 <= c < n_row implies (#[trigger] b_p[c]).iv() == off(a_i@, nz, c) + pick(a_i@, 0, c).len() by {}
@loop 2
invariant
    b_p.len() == old(b_p).len(), b_j.len() == old(b_j).len(), b_x.len() == old(b_x).len(),
    forall|c: int| 0 <= c < n_row ==> (#[trigger] b_p[c]).iv() == off(a_i@, nz, c) + pick(a_i@, n as int, c).len(),
    grouped_vn(a_i@, nz, n as int, n_row as int, a_j@, b_j@),
    grouped_vn(a_i@, nz, n as int, n_row as int, a_x@, b_x@),
@top 2
    let ghost c0 = a_i[n as int].iv();
    proof { pick_next(a_i@, n as int, nz, c0); off_mono(a_i@, nz, c0, n_row as int); off_mono(a_i@, nz, 0, c0); }
    let ghost px = b_x@; let ghost pj = b_j@;
@bot 2
    proof {
        group_step_v(a_i@, nz, n as int, n_row as int, a_j@, pj, b_j@);
        group_step_v(a_i@, nz, n as int, n_row as int, a_x@, px, b_x@);
    }
@loop 3
invariant
    b_p.len() == old(b_p).len(), i <= n_row ==> last.iv() == off(a_i@, nz, i as int),
    forall|c: int| 0 <= c < i ==> (#[trigger] b_p[c]).iv() == off(a_i@, nz, c),
    forall|c: int| i <= c < n_row ==> (#[trigger] b_p[c]).iv() == off(a_i@, nz, c + 1),
@post 3
    proof {
        assert forall|c: int| 0 <= c <= n_row implies (#[trigger] b_p[c]).iv() == off(a_i@, nz, c) by {}
        grouped_range(a_i@, nz, n_row as int, _n_col as int, a_j@, b_p@, b_j@);
        assert forall|r: int, c: int| 0 <= r < n_row implies #[trigger] ent(b_p@, b_j@, b_x@, r, c) == csum(a_i@, a_j@, a_x@, nnz as int, r, c) by {
            assert(b_p[r + 1].iv() == off(a_i@, nz, r + 1));
            grouped_csum(a_i@, a_j@, a_x@, nz, n_row as int, b_j@, b_x@, r, c, nz);
        }
    }
