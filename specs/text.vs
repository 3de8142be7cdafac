@fn coo::Coo::to_string
@props C24
@sig
requires coo_ok(*self),
ensures exists|ls: Seq<Seq<char>>| #[trigger] coo_lines(*self, ls) && res@ == nl_between(ls),
@with
/// one line for every stored entry, in storage order
pub open spec fn coo_lines<I: Integer, T: Scalar>(a: Coo<I, T>, ls: Seq<Seq<char>>) -> bool {
    ls.len() == a.values.len() && forall|t: int| 0 <= t < ls.len() ==> #[trigger] ls[t] == line3(a.rowidx[t].iv(), a.colidx[t].iv(), shown(a.values[t]))
}
@top
    broadcast use {shown_int, shown_ref};
    let ghost mut ls: Seq<Seq<char>> = Seq::empty();
    proof { texts0(false, 0); }
    
@loop 0
invariant ls.len() == i, buf@ == nl_between(ls), (buf@.len() == 0) == (i == 0),
    forall|t: int| 0 <= t < i ==> #[trigger] ls[t] == line3(self.rowidx[t].iv(), self.colidx[t].iv(), shown(self.values[t])),
@top 0
    let ghost gb = buf@;
    let ghost l = line3(self.rowidx[i as int].iv(), self.colidx[i as int].iv(), shown(self.values[i as int]));
    proof { between_push(ls, l); line3_some(self.rowidx[i as int].iv(), self.colidx[i as int].iv(), shown(self.values[i as int])); }
@bot 0
    proof { assert(gb + l =~= l || i > 0); ls = ls.push(l); }
@end
    proof { assert(coo_lines(*self, ls)); }

@fn csc::CSC::to_string
@props C24
@sig
requires csc_ok(*self),
ensures exists|ls: Seq<Seq<char>>| #[trigger] csc_lines(*self, ls, csc_nnz(*self)) && res@ == nl_between(ls),
@with
/// one line for every stored entry, in storage order
pub open spec fn csc_line<I: Integer, T: Scalar>(a: CSC<I, T>, j: int, t: int) -> Seq<char> { line3(a.rowidx[t].iv(), j, shown(a.values[t])) }
pub open spec fn csc_lines<I: Integer, T: Scalar>(a: CSC<I, T>, ls: Seq<Seq<char>>, n: int) -> bool {
    ls.len() == n && forall|j: int, t: int| 0 <= j < a.cols && a.colptr[j].iv() <= t < a.colptr[j + 1].iv() && t < n ==> #[trigger] csc_line(a, j, t) == ls[t]
}
@top
    broadcast use {shown_int, shown_ref};
    let ghost mut ls: Seq<Seq<char>> = Seq::empty();
    proof { texts0(false, 0); }
    proof { ptr_all(self.cols as int, self.colptr@); ptr_steps(self.cols as int, self.colptr@); }
@loop 0
invariant csc_lines(*self, ls, self.colptr[j as int].iv()), buf@ == nl_between(ls), (buf@.len() == 0) == (ls.len() == 0),
@loop 1
invariant csc_lines(*self, ls, ii as int), buf@ == nl_between(ls), (buf@.len() == 0) == (ls.len() == 0),
@top 1
    let ghost (gb, gl) = (buf@, ls);
    let ghost l = csc_line(*self, j as int, ii as int);
    proof { between_push(ls, l); line3_some(self.rowidx[ii as int].iv(), j as int, shown(self.values[ii as int])); }
@bot 1
    proof {
        assert(gb + l =~= l || gl.len() > 0); ls = ls.push(l);
        assert forall|jj: int, t: int| 0 <= jj < self.cols && self.colptr[jj].iv() <= t < self.colptr[jj + 1].iv() && t < ii + 1 implies #[trigger] csc_line(*self, jj, t) == ls[t] by {
            if t == ii { ptr_line(self.cols as int, self.colptr@, j as int, jj, t); } else { assert(csc_line(*self, jj, t) == gl[t]); }
        }
    }
@post 0
    proof { assert(csc_lines(*self, ls, csc_nnz(*self))); }

@fn csr::CSR::to_string
@props C24
@sig
requires csr_ok(*self),
ensures exists|ls: Seq<Seq<char>>| #[trigger] csr_lines(*self, ls, csr_nnz(*self)) && res@ == nl_behind(ls),
@with
/// one line for every stored entry, in storage order
pub open spec fn csr_line<I: Integer, T: Scalar>(a: CSR<I, T>, i: int, t: int) -> Seq<char> { line3(i, a.colidx[t].iv(), shown(a.values[t])) }
pub open spec fn csr_lines<I: Integer, T: Scalar>(a: CSR<I, T>, ls: Seq<Seq<char>>, n: int) -> bool {
    ls.len() == n && forall|i: int, t: int| 0 <= i < a.rows && a.rowptr[i].iv() <= t < a.rowptr[i + 1].iv() && t < n ==> #[trigger] csr_line(a, i, t) == ls[t]
}
@top
    broadcast use {shown_int, shown_ref};
    let ghost mut ls: Seq<Seq<char>> = Seq::empty();
    proof { texts0(false, 0); }
    proof { ptr_all(self.rows as int, self.rowptr@); ptr_steps(self.rows as int, self.rowptr@); empty_bytes(); }
@pre 0
    assert(w@ =~= Seq::<u8>::empty());
@loop 0
invariant csr_lines(*self, ls, self.rowptr[i as int].iv()), w.txt() == nl_behind(ls), w.sound(),
@loop 1
invariant csr_lines(*self, ls, jj as int), w.txt() == nl_behind(ls), w.sound(),
@top 1
    let ghost (gb, gl) = (w.txt(), ls);
    let ghost l = csr_line(*self, i as int, jj as int);
    proof { behind_push(ls, l); reveal_strlit("\n"); }
@bot 1
    proof {
        assert(gb + (l + "\n"@) =~= gb + l.push('\n')); ls = ls.push(l);
        assert forall|ii: int, t: int| 0 <= ii < self.rows && self.rowptr[ii].iv() <= t < self.rowptr[ii + 1].iv() && t < jj + 1 implies #[trigger] csr_line(*self, ii, t) == ls[t] by {
            if t == jj { ptr_line(self.rows as int, self.rowptr@, i as int, ii, t); } else { assert(csr_line(*self, ii, t) == gl[t]); }
        }
    }
@post 0
    proof { assert(csr_lines(*self, ls, csr_nnz(*self))); }

@fn dok::DoK::to_string
@props C24
@items dok::DoK
@mapiter 0
@sig
requires dok_ok(self.rows as int, self.cols as int, self.values@),
ensures exists|es: Seq<((I, I), T)>, ls: Seq<Seq<char>>| entries(self.values@, es) && #[trigger] dok_lines(es, ls) && res@ == nl_between(ls),
@with
/// one line for every entry
pub open spec fn dok_lines<I: Integer, T: Scalar>(es: Seq<((I, I), T)>, ls: Seq<Seq<char>>) -> bool {
    ls.len() == es.len() && forall|t: int| 0 <= t < ls.len() ==> #[trigger] ls[t] == line3(es[t].0.0.iv(), es[t].0.1.iv(), shown(es[t].1))
}
@top
    broadcast use {shown_int, shown_ref};
    broadcast use vstd::std_specs::hash::group_hash_axioms; broadcast use hash_keys;
    let ghost mut es: Seq<((I, I), T)> = Seq::empty();
    let ghost mut ls: Seq<Seq<char>> = Seq::empty();
    proof { texts0(false, 0); }
@loop 0
invariant es =~= vpit0.seq().take(vpit0.index@ as int).map_values(|e: (&(I, I), &T)| (*e.0, *e.1)),
    dok_lines(es, ls), buf@ == nl_between(ls), (buf@.len() == 0) == (ls.len() == 0),
@top 0
    let ghost (gb, gl) = (buf@, ls);
    let ghost l = line3(i.iv(), j.iv(), shown(v));
    proof { between_push(ls, l); line3_some(i.iv(), j.iv(), shown(v)); }
@bot 0
    proof { assert(gb + l =~= l || gl.len() > 0); ls = ls.push(l); es = es.push(((i, j), v)); }
@post 0
    proof { entries_all(self.values@, es); assert(dok_lines(es, ls)); }

@fn table::csr_table
@props C24
@sig
requires wfx(n_row as int, n_col as int, a_p@, a_j@, a_x@), w.sound(),
ensures res.sound(), exists|g: Seq<Seq<Seq<char>>>| #[trigger] grid_is(a_p@, a_j@, a_x@, fmt_float_config, n_row as int, n_col as int, g) && res.txt() == w.txt() + aligned(table_txt(label, g, n_col as int)),
@top
    broadcast use {shown_int, shown_ref, bytes_text};
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost mut g: Seq<Seq<Seq<char>>> = Seq::empty();
    proof { texts0(label, n_col as int); }
    let ghost w0 = w;
    proof { ptr_all(n_row as int, a_p@); ptr_steps(n_row as int, a_p@); }
@loop 0
invariant tw.sink() == w0, tw.given() == "\t"@ + heads(c as int),
@top 0
    let ghost gh = tw.given();
@bot 0
    proof { heads_push(c as int); cat4("\t"@, heads(c as int), dec(c as int), "\t"@); assert(tw.given() == "\t"@ + heads(c + 1)); }
@pre 1
    let ghost head = tw.given();
    assert(head =~= (if label { "\t"@ + heads(n_col as int) + "\n"@ } else { Seq::empty() }));
@loop 1
invariant tw.sink() == w0, g.len() == r, tw.given() == head + rows_txt(label, g, n_col as int),
    forall|k: int| 0 <= k < r ==> row_is(a_p@, a_j@, a_x@, fmt_float_config, k, n_col as int, #[trigger] g[k]),
@top 1
    let ghost mut cs: Seq<Seq<char>> = Seq::empty();
@loop 2
invariant
    forall|k: int| start <= k < jj ==> nz_cols@.contains_key((#[trigger] a_j[k]).iv() as usize),
    forall|c: usize| #[trigger] nz_cols@.contains_key(c) ==> start <= nz_cols@[c] < jj && a_j[nz_cols@[c] as int].iv() == c,
@pre 3
    let ghost lead = tw.given();
    proof { cat0(lead); cat3(head, rows_txt(label, g, n_col as int), dec(r as int), "\t"@); }
    assert(lead == head + rows_txt(label, g, n_col as int) + (if label { dec(r as int) + "\t"@ } else { Seq::empty() }));
@loop 3
invariant tw.sink() == w0, cs.len() == c, tw.given() == lead + cells_txt(cs, n_col as int),
    forall|k: int| 0 <= k < c ==> cell_is(a_p@, a_j@, a_x@, fmt_float_config, r as int, k, #[trigger] cs[k]),
@top 3
    let ghost gc = tw.given();
@bot 3
    proof {
        let s = if nz_cols@.contains_key(c) { a_x[nz_cols@[c] as int].pretty(fmt_float_config) } else { "-"@ };
        assert(tw.given() == gc + s + (if c == n_col - 1 { "\t\n"@ } else { "\t"@ }));
        cells_push(cs, s, n_col as int);
        cat4(lead, cells_txt(cs, n_col as int), s, if c == n_col - 1 { "\t\n"@ } else { "\t"@ });
        assert(cell_is(a_p@, a_j@, a_x@, fmt_float_config, r as int, c as int, s));
        cs = cs.push(s);
    }
@bot 1
    proof {
        rows_push(label, g, cs, n_col as int);
        cat4(head, rows_txt(label, g, n_col as int), if label { dec(r as int) + "\t"@ } else { Seq::empty() }, cells_txt(cs, n_col as int));
        g = g.push(cs);
    }
@post 1
    proof { assert(tw.given() =~= table_txt(label, g, n_col as int)); assert(grid_is(a_p@, a_j@, a_x@, fmt_float_config, n_row as int, n_col as int, g)); }

@fn csr::CSR::to_table
@props C24
@sub .trim_end_matches("\n") ==> .vp_trim_end("\n")
@sig
requires csr_ok(*self),
ensures exists|g: Seq<Seq<Seq<char>>>| #[trigger] grid_is(self.rowptr@, self.colidx@, self.values@, None, self.rows as int, self.cols as int, g)
    && res@ == trimmed(aligned(table_txt(false, g, self.cols as int))),
@top
    proof { empty_bytes(); reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']); }

@fn traits::Scalar@trait::pretty_string
@props C24
@free pretty_plain <T: Scalar>
@selfty T
@sig
ensures res@ == Seq::<char>::empty() + shown::<T>(*slf),
@top
    broadcast use {shown_int, shown_ref};

@fn traits::f64@Scalar::pretty_string
@props C24
@free pretty_f64 <>
@selfty f64
@sub DEFAULT_FLOAT_CONFIG ==> vp_default_cfg()
@sig
ensures res@ == num_txt(*slf, config),

@fn traits::f32@Scalar::pretty_string
@props C24
@free pretty_f32 <>
@selfty f32
@sub DEFAULT_FLOAT_CONFIG ==> vp_default_cfg()
@sub *self as f64 ==> vp_wide(*self)
@sig
ensures res@ == num_txt(f_wide(*slf), config),

@fn traits::Complex@Scalar::pretty_string
@props C24
@free pretty_c64 <>
@sub .to_string() ==> .clone()
@selfty Cplx<f64>
@sub DEFAULT_FLOAT_CONFIG ==> vp_default_cfg()
@extra
/// num_complex::Complex: its two fields
pub struct Cplx<T> { pub re: T, pub im: T }
@sig
ensures res@ == cplx_txt(slf.re, slf.im, config),
@top
    broadcast use {shown_str, shown_string, f64_ord, f32_ord};

@fn traits::Complex@Scalar::pretty_string#2
@props C24
@free pretty_c32 <>
@sub .to_string() ==> .clone()
@selfty Cplx<f32>
@sub DEFAULT_FLOAT_CONFIG ==> vp_default_cfg()
@sub self.re as f64 ==> vp_wide(self.re)
@sub self.im.abs() as f64 ==> vp_wide(self.im.abs())
@extra
/// num_complex::Complex: its two fields
pub struct Cplx<T> { pub re: T, pub im: T }
@sig
ensures res@ == cplx_txt(f_wide(slf.re), f_wide(slf.im), config),
@top
    broadcast use {shown_str, shown_string, f64_ord, f32_ord};

@fn traits::Nonzero@trait::nonzero
@props C05 C10 C11
@free nonzero_plain <T: Scalar>
@selfty T
@sub Default::default() ==> vp_default::<T>()
@extra
/// the default of a scalar is its zero (assumed of Default)
#[verifier::external_body]
pub fn vp_default<T: Scalar>() -> (r: T) ensures r.sv() == C::zero() { unimplemented!() }
@sig
ensures res == (slf.sv() != C::zero()),

@fn dok::DoK@Deref::deref
@props C18
@items dok::DoK
@free dok_deref <I, T>
@selfty DoK<I, T>
@sub Self::Target ==> HashMap<(I, I), T>
@sig
ensures *res == slf.values,
