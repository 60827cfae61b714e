all! {
l_sum_index
l_sum_from1
l_sum_incl
l_rev
l_revrange
l_horner
l_while
l_while2
l_break
l_breakval
l_continue
l_prev
l_option_prev
l_max
l_argmax
l_minmax
l_push
l_push2
l_fill
l_fill_mut
l_shift
l_pow
l_flip
l_flag
l_flagfirst
l_count
l_nested
l_nested_dep
l_step
l_return
l_const
l_const_break
l_two_acc
l_swap
l_whilelet
l_peek
l_first_last
l_late_write
l_maybe_write
l_find_conv
i_sum
i_product
i_map_sum
i_windows
i_tuple_windows
i_zip_eq_skip
i_take
i_skip
i_chain
i_filter
i_filter_map
i_fold
i_fold_max
i_fold_min
i_max_by
i_min_by
i_max_rev
i_reduce
i_minmax
i_sort
i_all
i_any
i_position
i_find
i_count
i_last
i_nth
i_collect
i_unzip
i_rev_collect
i_enum
i_scan
i_step_by
i_flat
i_array_map
i_array_iter
i_try_fold
i_result_collect
i_take_while
i_skip_while
i_split
i_split_first
i_split_last
i_pattern
i_slice
i_first_get
i_repeat
i_once
i_from_fn
i_succ
i_inspect
i_for_each
i_map_while
i_chunks
i_max_by_key
i_partition
i_vec_ops
i_dedup_windows3
i_extend
e_dir
e_ord
e_ordas
e_ord_is
e_ord_rev
e_ord_then
e_disc
e_disc2
e_match
e_eq
e_matches
e_opt_map
e_opt_and
e_opt_q
e_opt_zip
e_opt_take
e_opt_replace
e_res_q
e_res_map
e_res_or
e_ok
e_iflet
e_letelse
e_then
e_xor
e_shadow
e_tuple_match
m_update
m_ref
m_swap
m_cell
m_refcell
m_closure_mut
m_closure_move
m_boxdyn
m_dyn
m_array
m_array2
m_fnptr
m_nested_mut
m_vecstruct
m_from
m_ops
n_basic
n_minmax
n_abs
n_pow
n_sqrt
n_exp
n_trig
n_rad
n_muladd
n_cast
n_int
n_checked
n_cmp
n_range
n_assign
n_neg_zero
n_hyper
n_sumarr
v_dvec
v_dvec2
v_dvec3
v_dvec4
v_dvec5
v_dvec6
v_mat
v_v3
v_matnew
}
