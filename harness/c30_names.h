/* the functions declared by picotm's public headers */
N(_Exit_tx)
N(_exit_tx)
N(abort_tx)
N(accept_tm)
N(accept_tx)
N(acos_tx)
N(acosf_tx)
N(acosh_tx)
N(acoshf_tx)
N(acoshl_tx)
N(acosl_tx)
N(asin_tx)
N(asinf_tx)
N(asinh_tx)
N(asinhf_tx)
N(asinhl_tx)
N(asinl_tx)
N(atan2_tx)
N(atan2f_tx)
N(atan2l_tx)
N(atan_tx)
N(atanf_tx)
N(atanh_tx)
N(atanhf_tx)
N(atanhl_tx)
N(atanl_tx)
N(bind_tm)
N(bind_tx)
N(cabs_tx)
N(cabsf_tx)
N(cabsl_tx)
N(cacos_tx)
N(cacosf_tx)
N(cacosh_tx)
N(cacoshf_tx)
N(cacoshl_tx)
N(cacosl_tx)
N(calloc_tx)
N(carg_tx)
N(cargf_tx)
N(cargl_tx)
N(casin_tx)
N(casinf_tx)
N(casinh_tx)
N(casinhf_tx)
N(casinhl_tx)
N(casinl_tx)
N(catan_tx)
N(catanf_tx)
N(catanh_tx)
N(catanhf_tx)
N(catanhl_tx)
N(catanl_tx)
N(cbrt_tx)
N(cbrtf_tx)
N(cbrtl_tx)
N(ccos_tx)
N(ccosf_tx)
N(ccosh_tx)
N(ccoshf_tx)
N(ccoshl_tx)
N(ccosl_tx)
N(ceil_tx)
N(ceilf_tx)
N(ceill_tx)
N(cexp_tx)
N(cexpf_tx)
N(cexpl_tx)
N(chdir_tm)
N(chdir_tx)
N(chmod_tm)
N(chmod_tx)
N(cimag_tx)
N(cimagf_tx)
N(cimagl_tx)
N(clog_tx)
N(clogf_tx)
N(clogl_tx)
N(close_tx)
N(conj_tx)
N(conjf_tx)
N(conjl_tx)
N(connect_tm)
N(connect_tx)
N(copysign_tx)
N(copysignf_tx)
N(copysignl_tx)
N(cos_tx)
N(cosf_tx)
N(cosh_tx)
N(coshf_tx)
N(coshl_tx)
N(cosl_tx)
N(cpow_tx)
N(cpowf_tx)
N(cpowl_tx)
N(cproj_tx)
N(cprojf_tx)
N(cprojl_tx)
N(creal_tx)
N(crealf_tx)
N(creall_tx)
N(creat_tm)
N(creat_tx)
N(csin_tx)
N(csinf_tx)
N(csinh_tx)
N(csinhf_tx)
N(csinhl_tx)
N(csinl_tx)
N(csqrt_tx)
N(csqrtf_tx)
N(csqrtl_tx)
N(ctan_tx)
N(ctanf_tx)
N(ctanh_tx)
N(ctanhf_tx)
N(ctanhl_tx)
N(ctanl_tx)
N(dup2_tx)
N(dup_tx)
N(duplocale_tx)
N(erf_tx)
N(erfc_tx)
N(erfcf_tx)
N(erfcl_tx)
N(erff_tx)
N(erfl_tx)
N(exit_tx)
N(exp2_tx)
N(exp2f_tx)
N(exp2l_tx)
N(exp_tx)
N(expf_tx)
N(expl_tx)
N(expm1_tx)
N(expm1f_tx)
N(expm1l_tx)
N(fabs_tx)
N(fabsf_tx)
N(fabsl_tx)
N(fchdir_tx)
N(fchmod_tx)
N(fcntl_tm)
N(fcntl_tx)
N(fdim_tx)
N(fdimf_tx)
N(fdiml_tx)
N(floor_tx)
N(floorf_tx)
N(floorl_tx)
N(fma_tx)
N(fmaf_tx)
N(fmal_tx)
N(fmax_tx)
N(fmaxf_tx)
N(fmaxl_tx)
N(fmin_tx)
N(fminf_tx)
N(fminl_tx)
N(fmod_tx)
N(fmodf_tx)
N(fmodl_tx)
N(free_tm)
N(free_tx)
N(freelocale_tx)
N(frexp_tm)
N(frexp_tx)
N(frexpf_tm)
N(frexpf_tx)
N(frexpl_tm)
N(frexpl_tx)
N(fstat_tm)
N(fstat_tx)
N(fsync_tx)
N(getcwd_tm)
N(getcwd_tx)
N(hypot_tx)
N(hypotf_tx)
N(hypotl_tx)
N(ilogb_tx)
N(ilogbf_tx)
N(ilogbl_tx)
N(j0_tx)
N(j1_tx)
N(jn_tx)
N(ldexp_tx)
N(ldexpf_tx)
N(ldexpl_tx)
N(lgamma_tx)
N(lgammaf_tx)
N(lgammal_tx)
N(link_tm)
N(link_tx)
N(listen_tx)
N(llrint_tx)
N(llrintf_tx)
N(llrintl_tx)
N(llround_tx)
N(llroundf_tx)
N(llroundl_tx)
N(localeconv_tx)
N(log10_tx)
N(log10f_tx)
N(log10l_tx)
N(log1p_tx)
N(log1pf_tx)
N(log1pl_tx)
N(log2_tx)
N(log2f_tx)
N(log2l_tx)
N(log_tx)
N(logb_tx)
N(logbf_tx)
N(logbl_tx)
N(logf_tx)
N(logl_tx)
N(lrint_tx)
N(lrintf_tx)
N(lrintl_tx)
N(lround_tx)
N(lroundf_tx)
N(lroundl_tx)
N(lseek_tx)
N(lstat_tm)
N(lstat_tx)
N(malloc_tx)
N(memccpy_tm)
N(memccpy_tx)
N(memchr_tm)
N(memchr_tx)
N(memcmp_tm)
N(memcmp_tx)
N(memcpy_tm)
N(memcpy_tx)
N(memmove_tm)
N(memmove_tx)
N(memrchr_tm)
N(memrchr_tx)
N(memset_tm)
N(memset_tx)
N(mkdir_tm)
N(mkdir_tx)
N(mkdtemp_tm)
N(mkdtemp_tx)
N(mkfifo_tm)
N(mkfifo_tx)
N(mknod_tm)
N(mknod_tx)
N(mkstemp_tm)
N(mkstemp_tx)
N(modf_tm)
N(modf_tx)
N(modff_tm)
N(modff_tx)
N(modfl_tm)
N(modfl_tx)
N(nan_tm)
N(nan_tx)
N(nanf_tm)
N(nanf_tx)
N(nanl_tm)
N(nanl_tx)
N(nearbyint_tx)
N(nearbyintf_tx)
N(nearbyintl_tx)
N(newlocale_tm)
N(newlocale_tx)
N(nextafter_tx)
N(nextafterf_tx)
N(nextafterl_tx)
N(nexttoward_tx)
N(nexttowardf_tx)
N(nexttowardl_tx)
N(open_tm)
N(open_tx)
N(picotm_append_event)
N(picotm_error_as_errno)
N(picotm_error_as_error_code)
N(picotm_error_as_siginfo_t)
N(picotm_error_clear)
N(picotm_error_get_description)
N(picotm_error_is_conflicting)
N(picotm_error_is_error)
N(picotm_error_is_non_recoverable)
N(picotm_error_is_revocable)
N(picotm_error_mark_as_non_recoverable)
N(picotm_error_set_conflicting)
N(picotm_error_set_description)
N(picotm_error_set_errno)
N(picotm_error_set_error_code)
N(picotm_error_set_revocable)
N(picotm_error_set_siginfo_t)
N(picotm_error_status)
N(picotm_irrevocable)
N(picotm_is_irrevocable)
N(picotm_libc_acquire_proc_signal)
N(picotm_libc_add_signal)
N(picotm_libc_clear_signals)
N(picotm_libc_get_error_recovery)
N(picotm_libc_get_file_type_cc_mode)
N(picotm_libc_release_proc_signal)
N(picotm_libc_remove_signal)
N(picotm_libc_save_errno)
N(picotm_libc_set_error_recovery)
N(picotm_libc_set_file_type_cc_mode)
N(picotm_libm_save_fenv)
N(picotm_libm_save_fexcept)
N(picotm_number_of_restarts)
N(picotm_recover_from_errno)
N(picotm_recover_from_error)
N(picotm_recover_from_error_code)
N(picotm_recover_from_siginfo_t)
N(picotm_register_module)
N(picotm_release)
N(picotm_resolve_conflict)
N(picotm_restart)
N(picotm_rwlock_init)
N(picotm_rwlock_try_rdlock)
N(picotm_rwlock_try_wrlock)
N(picotm_rwlock_uninit)
N(picotm_rwlock_unlock)
N(picotm_rwstate_get_status)
N(picotm_rwstate_init)
N(picotm_rwstate_set_status)
N(picotm_rwstate_try_rdlock)
N(picotm_rwstate_try_wrlock)
N(picotm_rwstate_uninit)
N(picotm_rwstate_unlock)
N(picotm_shared_ref16_obj_count)
N(picotm_shared_ref16_obj_down)
N(picotm_shared_ref16_obj_init)
N(picotm_shared_ref16_obj_uninit)
N(picotm_shared_ref16_obj_up)
N(picotm_shared_treemap_find_value)
N(picotm_shared_treemap_init)
N(picotm_shared_treemap_uninit)
N(picotm_tabfree)
N(picotm_tabresize)
N(picotm_tabrwalk_1)
N(picotm_tabrwalk_2)
N(picotm_tabuniq)
N(picotm_tabwalk_1)
N(picotm_tabwalk_2)
N(picotm_tabwalk_3)
N(picotm_treemap_find_value)
N(picotm_treemap_for_each_value)
N(picotm_treemap_init)
N(picotm_treemap_uninit)
N(pipe_tm)
N(pipe_tx)
N(posix_memalign_tm)
N(posix_memalign_tx)
N(pow_tx)
N(powf_tx)
N(powl_tx)
N(pread_tm)
N(pread_tx)
N(pthread_equal_tx)
N(pthread_self_tx)
N(ptr_clear_data)
N(ptr_clear_shared_data)
N(ptr_get_data)
N(ptr_get_shared_data)
N(ptr_set_data)
N(ptr_set_shared_data)
N(ptr_test_and_set_shared_data)
N(pwrite_tm)
N(pwrite_tx)
N(qsort_tm)
N(qsort_tx)
N(rand_r_tm)
N(rand_r_tx)
N(rawmemchr_tm)
N(rawmemchr_tx)
N(read_tm)
N(read_tx)
N(realloc_tm)
N(realloc_tx)
N(recv_tm)
N(recv_tx)
N(remainder_tx)
N(remainderf_tx)
N(remainderl_tx)
N(remquo_tm)
N(remquo_tx)
N(remquof_tm)
N(remquof_tx)
N(remquol_tm)
N(remquol_tx)
N(rint_tx)
N(rintf_tx)
N(rintl_tx)
N(round_tx)
N(roundf_tx)
N(roundl_tx)
N(scalbln_tx)
N(scalblnf_tx)
N(scalblnl_tx)
N(scalbn_tx)
N(scalbnf_tx)
N(scalbnl_tx)
N(sched_yield_tx)
N(send_tm)
N(send_tx)
N(setlocale_tm)
N(setlocale_tx)
N(shutdown_tx)
N(sin_tx)
N(sinf_tx)
N(sinh_tx)
N(sinhf_tx)
N(sinhl_tx)
N(sinl_tx)
N(sleep_tx)
N(snprintf_tm)
N(snprintf_tx)
N(socket_tx)
N(sqrt_tx)
N(sqrtf_tx)
N(sqrtl_tx)
N(sscanf_tm)
N(sscanf_tx)
N(stat_tm)
N(stat_tx)
N(stpcpy_tm)
N(stpcpy_tx)
N(stpncpy_tm)
N(stpncpy_tx)
N(strcat_tm)
N(strcat_tx)
N(strchr_tm)
N(strchr_tx)
N(strcmp_tm)
N(strcmp_tx)
N(strcoll_l_tm)
N(strcoll_l_tx)
N(strcpy_tm)
N(strcpy_tx)
N(strcspn_tm)
N(strcspn_tx)
N(strdup_tm)
N(strdup_tx)
N(strftime_l_tx)
N(strftime_tx)
N(strlen_tm)
N(strlen_tx)
N(strncat_tm)
N(strncat_tx)
N(strncmp_tm)
N(strncmp_tx)
N(strncpy_tm)
N(strncpy_tx)
N(strndup_tm)
N(strndup_tx)
N(strnlen_tm)
N(strnlen_tx)
N(strpbrk_tm)
N(strpbrk_tx)
N(strptime_tx)
N(strrchr_tm)
N(strrchr_tx)
N(strspn_tm)
N(strspn_tx)
N(strstr_tm)
N(strstr_tx)
N(strtok_r_tm)
N(strtok_r_tx)
N(sync_tx)
N(tan_tx)
N(tanf_tx)
N(tanh_tx)
N(tanhf_tx)
N(tanhl_tx)
N(tanl_tx)
N(tgamma_tx)
N(tgammaf_tx)
N(tgammal_tx)
N(trunc_tx)
N(truncf_tx)
N(truncl_tx)
N(txlist_back_tx)
N(txlist_begin_tx)
N(txlist_clear_tx)
N(txlist_empty_tx)
N(txlist_end_tx)
N(txlist_entry_init)
N(txlist_entry_init_tm)
N(txlist_entry_next_tx)
N(txlist_entry_prev_tx)
N(txlist_entry_uninit)
N(txlist_entry_uninit_tm)
N(txlist_erase_tx)
N(txlist_front_tx)
N(txlist_insert_tx)
N(txlist_of_state_tx)
N(txlist_pop_back_tx)
N(txlist_pop_front_tx)
N(txlist_push_back_tx)
N(txlist_push_front_tx)
N(txlist_size_tx)
N(txlist_state_clear_and_uninit_entries)
N(txlist_state_init)
N(txlist_state_uninit)
N(txmultiset_begin_tx)
N(txmultiset_clear_tx)
N(txmultiset_count_tx)
N(txmultiset_empty_tx)
N(txmultiset_end_tx)
N(txmultiset_entry_init)
N(txmultiset_entry_init_tm)
N(txmultiset_entry_next_tx)
N(txmultiset_entry_prev_tx)
N(txmultiset_entry_uninit)
N(txmultiset_entry_uninit_tm)
N(txmultiset_erase_tx)
N(txmultiset_find_tx)
N(txmultiset_insert_tx)
N(txmultiset_lower_bound_tx)
N(txmultiset_of_state_tx)
N(txmultiset_size_tx)
N(txmultiset_state_clear_and_uninit_entries)
N(txmultiset_state_init)
N(txmultiset_state_uninit)
N(txmultiset_upper_bound_tx)
N(txqueue_back_tx)
N(txqueue_empty_tx)
N(txqueue_entry_init)
N(txqueue_entry_init_tm)
N(txqueue_entry_uninit)
N(txqueue_entry_uninit_tm)
N(txqueue_front_tx)
N(txqueue_of_state_tx)
N(txqueue_pop_tx)
N(txqueue_push_tx)
N(txqueue_size_tx)
N(txqueue_state_clear_and_uninit_entries)
N(txqueue_state_init)
N(txqueue_state_uninit)
N(txstack_empty_tx)
N(txstack_entry_init)
N(txstack_entry_init_tm)
N(txstack_entry_uninit)
N(txstack_entry_uninit_tm)
N(txstack_of_state_tx)
N(txstack_pop_tx)
N(txstack_push_tx)
N(txstack_size_tx)
N(txstack_state_clear_and_uninit_entries)
N(txstack_state_init)
N(txstack_state_uninit)
N(txstack_top_tx)
N(unlink_tm)
N(unlink_tx)
N(uselocale_tx)
N(vsnprintf_tm)
N(vsnprintf_tx)
N(vsscanf_tm)
N(vsscanf_tx)
N(write_tm)
N(write_tx)
N(y0_tx)
N(y1_tx)
N(yn_tx)
