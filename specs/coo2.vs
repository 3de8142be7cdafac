@fn coo::Coo::v_stack
@props C16 C17
@map 0 I ; I
requires 0 <= vpm.iv() < b_mat.rows ensures vpo.iv() == vpm.iv() + a_mat.rows
@sig
requires coo_ok(*a_mat), coo_ok(*b_mat), a_mat.rows + b_mat.rows <= imx::<I>(), a_mat.values.len() + b_mat.values.len() <= isize::MAX,
ensures res.is_ok() == (a_mat.cols == b_mat.cols),
    match res { Ok(m) => coo_ok(m) && m.rows == a_mat.rows + b_mat.rows && m.cols == a_mat.cols &&
        m.values@ == a_mat.values@ + b_mat.values@ && m.colidx@ == a_mat.colidx@ + b_mat.colidx@ &&
        appended(a_mat.rowidx@, a_mat.colidx@, a_mat.values@, a_mat.values.len() as int, b_mat.rowidx@, b_mat.colidx@, b_mat.values@, b_mat.values.len() as int, a_mat.rows as int, 0, m.rowidx@, m.colidx@, m.values@) &&
        (forall|r: int, c: int| 0 <= r < m.rows && 0 <= c < m.cols ==> #[trigger] coo_at(m, r, c) == if r < a_mat.rows { coo_at(*a_mat, r, c) } else { coo_at(*b_mat, r - a_mat.rows, c) }), Err(_) => true },
@end
    proof {
        app_ok(a_mat.rows as int, a_mat.cols as int, a_mat.rowidx@, a_mat.colidx@, a_mat.values@, a_mat.values.len() as int, b_mat.rows as int, b_mat.cols as int,
            b_mat.rowidx@, b_mat.colidx@, b_mat.values@, b_mat.values.len() as int, a_mat.rows as int, 0, rowidx@, colidx@, values@, rows as int, cols as int);
        let (gl, gm) = (a_mat.values.len() as int, values.len() as int);
        assert forall|r: int, c: int| 0 <= r < rows && 0 <= c < cols implies #[trigger] csum(rowidx@, colidx@, values@, gm, r, c) == if r < a_mat.rows { coo_at(*a_mat, r, c) } else { coo_at(*b_mat, r - a_mat.rows, c) } by {
            assert(csum(rowidx@, colidx@, values@, gl + b_mat.values.len(), r, c) == csum(rowidx@, colidx@, values@, gm, r, c)); }
    }

@fn coo::Coo::h_stack
@props C16 C17
@map 0 I ; I
requires 0 <= vpm.iv() < b_mat.cols ensures vpo.iv() == vpm.iv() + a_mat.cols
@sig
requires coo_ok(*a_mat), coo_ok(*b_mat), a_mat.cols + b_mat.cols <= imx::<I>(), a_mat.values.len() + b_mat.values.len() <= isize::MAX,
ensures res.is_ok() == (a_mat.rows == b_mat.rows),
    match res { Ok(m) => coo_ok(m) && m.rows == a_mat.rows && m.cols == a_mat.cols + b_mat.cols &&
        m.values@ == a_mat.values@ + b_mat.values@ && m.rowidx@ == a_mat.rowidx@ + b_mat.rowidx@ &&
        appended(a_mat.rowidx@, a_mat.colidx@, a_mat.values@, a_mat.values.len() as int, b_mat.rowidx@, b_mat.colidx@, b_mat.values@, b_mat.values.len() as int, 0, a_mat.cols as int, m.rowidx@, m.colidx@, m.values@) &&
        (forall|r: int, c: int| 0 <= r < m.rows && 0 <= c < m.cols ==> #[trigger] coo_at(m, r, c) == if c < a_mat.cols { coo_at(*a_mat, r, c) } else { coo_at(*b_mat, r, c - a_mat.cols) }), Err(_) => true },
@end
    proof {
        app_ok(a_mat.rows as int, a_mat.cols as int, a_mat.rowidx@, a_mat.colidx@, a_mat.values@, a_mat.values.len() as int, b_mat.rows as int, b_mat.cols as int,
            b_mat.rowidx@, b_mat.colidx@, b_mat.values@, b_mat.values.len() as int, 0, a_mat.cols as int, rowidx@, colidx@, values@, rows as int, cols as int);
        let (gl, gm) = (a_mat.values.len() as int, values.len() as int);
        assert forall|r: int, c: int| 0 <= r < rows && 0 <= c < cols implies #[trigger] csum(rowidx@, colidx@, values@, gm, r, c) == if c < a_mat.cols { coo_at(*a_mat, r, c) } else { coo_at(*b_mat, r, c - a_mat.cols) } by {
            assert(csum(rowidx@, colidx@, values@, gl + b_mat.values.len(), r, c) == csum(rowidx@, colidx@, values@, gm, r, c)); }
    }

@fn coo::Coo::v_stack3
@props C16 C17
@sig
requires coo_ok(*a_mat), coo_ok(*b_mat), coo_ok(*c_mat), a_mat.rows + b_mat.rows + c_mat.rows <= imx::<I>(), a_mat.values.len() + b_mat.values.len() + c_mat.values.len() <= isize::MAX,
ensures res.is_ok() == (a_mat.cols == b_mat.cols && a_mat.cols == c_mat.cols),
    match res { Ok(m) => coo_ok(m) && m.rows == a_mat.rows + b_mat.rows + c_mat.rows && m.cols == a_mat.cols && m.values@ == a_mat.values@ + b_mat.values@ + c_mat.values@ &&
        (forall|r: int, c: int| 0 <= r < m.rows && 0 <= c < m.cols ==> #[trigger] coo_at(m, r, c) == if r < a_mat.rows { coo_at(*a_mat, r, c) }
            else if r < a_mat.rows + b_mat.rows { coo_at(*b_mat, r - a_mat.rows, c) } else { coo_at(*c_mat, r - a_mat.rows - b_mat.rows, c) }), Err(_) => true },

@fn coo::Coo::h_stack3
@props C16 C17
@sig
requires coo_ok(*a_mat), coo_ok(*b_mat), coo_ok(*c_mat), a_mat.cols + b_mat.cols + c_mat.cols <= imx::<I>(), a_mat.values.len() + b_mat.values.len() + c_mat.values.len() <= isize::MAX,
ensures res.is_ok() == (a_mat.rows == b_mat.rows && a_mat.rows == c_mat.rows),
    match res { Ok(m) => coo_ok(m) && m.rows == a_mat.rows && m.cols == a_mat.cols + b_mat.cols + c_mat.cols && m.values@ == a_mat.values@ + b_mat.values@ + c_mat.values@ &&
        (forall|r: int, c: int| 0 <= r < m.rows && 0 <= c < m.cols ==> #[trigger] coo_at(m, r, c) == if c < a_mat.cols { coo_at(*a_mat, r, c) }
            else if c < a_mat.cols + b_mat.cols { coo_at(*b_mat, r, c - a_mat.cols) } else { coo_at(*c_mat, r, c - a_mat.cols - b_mat.cols) }), Err(_) => true },

@fn coo::Coo::compose
@props C16 C17
@sig
requires forall|p: int, q: int| 0 <= p < 2 && 0 <= q < 2 ==> coo_ok(#[trigger] *j[p][q]),
    j[0][0].cols + j[0][1].cols <= imx::<I>(), j[1][0].cols + j[1][1].cols <= imx::<I>(), j[0][0].rows + j[1][0].rows <= imx::<I>(),
    j[0][0].values.len() + j[0][1].values.len() + j[1][0].values.len() + j[1][1].values.len() <= isize::MAX,
ensures res.is_ok() == (j[0][0].rows == j[0][1].rows && j[1][0].rows == j[1][1].rows && j[0][0].cols + j[0][1].cols == j[1][0].cols + j[1][1].cols),
    match res { Ok(m) => coo_ok(m) && m.rows == j[0][0].rows + j[1][0].rows && m.cols == j[0][0].cols + j[0][1].cols &&
        m.values.len() == j[0][0].values.len() + j[0][1].values.len() + j[1][0].values.len() + j[1][1].values.len() &&
        (forall|r: int, c: int| 0 <= r < m.rows && 0 <= c < m.cols ==> #[trigger] coo_at(m, r, c) ==
            if r < j[0][0].rows { if c < j[0][0].cols { coo_at(*j[0][0], r, c) } else { coo_at(*j[0][1], r, c - j[0][0].cols) } }
            else { if c < j[1][0].cols { coo_at(*j[1][0], r - j[0][0].rows, c) } else { coo_at(*j[1][1], r - j[0][0].rows, c - j[1][0].cols) } }), Err(_) => true },
@top
    proof { assert(coo_ok(*j[0][0]) && coo_ok(*j[0][1]) && coo_ok(*j[1][0]) && coo_ok(*j[1][1])); }

@fn coo::Coo::compose3
@props C16 C17
@sig
requires forall|p: int, q: int| 0 <= p < 3 && 0 <= q < 3 ==> coo_ok(#[trigger] *j[p][q]),
    j[0][0].cols + j[0][1].cols + j[0][2].cols <= imx::<I>(), j[1][0].cols + j[1][1].cols + j[1][2].cols <= imx::<I>(), j[2][0].cols + j[2][1].cols + j[2][2].cols <= imx::<I>(),
    j[0][0].rows + j[1][0].rows + j[2][0].rows <= imx::<I>(),
    j[0][0].values.len() + j[0][1].values.len() + j[0][2].values.len() + j[1][0].values.len() + j[1][1].values.len() + j[1][2].values.len() + j[2][0].values.len() + j[2][1].values.len() + j[2][2].values.len() <= isize::MAX,
ensures res.is_ok() == (j[0][0].rows == j[0][1].rows && j[0][0].rows == j[0][2].rows && j[1][0].rows == j[1][1].rows && j[1][0].rows == j[1][2].rows && j[2][0].rows == j[2][1].rows && j[2][0].rows == j[2][2].rows
        && j[0][0].cols + j[0][1].cols + j[0][2].cols == j[1][0].cols + j[1][1].cols + j[1][2].cols && j[0][0].cols + j[0][1].cols + j[0][2].cols == j[2][0].cols + j[2][1].cols + j[2][2].cols),
    match res { Ok(m) => coo_ok(m) && m.rows == j[0][0].rows + j[1][0].rows + j[2][0].rows && m.cols == j[0][0].cols + j[0][1].cols + j[0][2].cols &&
        (forall|r: int, c: int| 0 <= r < m.rows && 0 <= c < m.cols ==> #[trigger] coo_at(m, r, c) == ({
            let p = if r < j[0][0].rows { 0int } else if r < j[0][0].rows + j[1][0].rows { 1 } else { 2 };
            let r0 = if p == 0 { 0 } else if p == 1 { j[0][0].rows as int } else { j[0][0].rows + j[1][0].rows };
            let q = if c < j[p][0].cols { 0int } else if c < j[p][0].cols + j[p][1].cols { 1 } else { 2 };
            let c0 = if q == 0 { 0 } else if q == 1 { j[p][0].cols as int } else { j[p][0].cols + j[p][1].cols };
            coo_at(*j[p][q], r - r0, c - c0) })), Err(_) => true },
@top
    proof { assert(coo_ok(*j[0][0]) && coo_ok(*j[0][1]) && coo_ok(*j[0][2]) && coo_ok(*j[1][0]) && coo_ok(*j[1][1]) && coo_ok(*j[1][2]) && coo_ok(*j[2][0]) && coo_ok(*j[2][1]) && coo_ok(*j[2][2])); }
