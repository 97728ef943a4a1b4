import phys, u_flux, u_lemma, u_time, u_config, u_bc, u_misc, u_valid, u_rkf, u_next, u_run, u_out
