c01-chunk C01 caught
c01-primary-late C01 caught
c01-static-buf C01 caught
c02-counts C02 equivalent
c02-field-cache C02 caught
c02-last-photon C18 caught
c02-pusher-static C02 caught
c02-pusher-static C06 caught
c03-break C03 caught
c03-lower-bin C03 caught
c03-py-z C03 caught
c04-old-mom C04 caught
c04-size C04 caught
c04-time-after C04 equivalent
c05-clock C05 caught
c05-const C05 caught
c05-normal-static C05 caught
c05-rank C05 equivalent
c06-chunk C06 caught
c06-omit C06 caught
c06-tid C06 caught
c07-gen-partial C07 equivalent
c07-stale-frac C07 caught
c07-static-field C07 equivalent
c07-timeend C07 caught
c08-any C08 equivalent
c08-int C08 caught
c08-master C08 equivalent
c08-tag C08 caught
c09-last C09 caught
c09-rank C09 equivalent
c10-barrier C10 caught
c10-empty C10 caught
c10-order C10 caught
c11-close-swallow C11 caught
c11-create C11 caught
c11-flush C11 equivalent
c12-append C12 caught
c12-rdwr C12 caught
c12-summary C12 caught
c13-clear C13 caught
c13-ferror C13 caught
c14-eof C14 caught
c14-h C14 caught
c14-status C14 caught
c15-catch C15 caught
c15-nothrow C15 caught
c15-storetrack C15 caught
c16-kill C18 caught
c16-order C16 caught
c16-place C16 caught
c16-split C16 caught
c16-time C16 caught
c16-weight C16 caught
c17-cut-recoil C17 caught
c17-emin C17 caught
c17-emin-ce C17 caught
c17-mom C17 caught
c17-time C17 caught
c18-again C16 caught
c18-again C18 caught
c18-emit C18 equivalent
c18-push C18 caught
c18-py C18 caught
c18-py C27 caught
c19-exit C19 caught
c19-off C19 caught
c19-oldest C19 caught
c20-cut C20 equivalent
c20-motion C20 missed
c20-weight C20 caught
c20-wt2 C20 caught
c21-carry C21 caught
c21-init C21 caught
c21-noem C21 caught
c21-uniform C21 caught
c22-direction C22 caught
c22-gaunt C22 caught
c22-landau C22 caught
c22-logh C22 caught
c23-slave C23 equivalent
c24-acc C24 caught
c24-hist C24 caught
c24-list C24 caught
c24-table C24 caught
c25-exit C25 caught
c25-long C25 caught
c25-stop C25 equivalent
c26-phi C26 equivalent
c26-radius-unit C26 caught
c26-reuse C26 caught
c26-rot C26 caught
c26-sig C26 caught
c26-theta C26 caught
c01-byte C01 caught
c01-short C01 caught
c02-eventid C02 caught
c02-field-memo C02 equivalent
c03-initial C03 caught
c03-last-interval C03 caught
c03-late C03 caught
c03-late-end C03 caught
c03-tfill C03 caught
c04-dead C04 caught
c04-empty C04 caught C04
c04-nocrit C04 equivalent
c04-photon-step C04 equivalent
c05-seed-or C05 caught
c05-shared-norm C05 equivalent
c05-small-seed C05 caught
c06-dup-photon C06 equivalent
c06-static-sched C06 equivalent
c07-bw-sticky C07 caught
c07-field-partial C07 caught
c07-neg-events C07 caught
c07-neg-step C07 caught
c07-quantum-case C07 caught
c07-refuse-clears C07 caught
c08-any-pos C08 caught
c08-master-photons C08 caught
c08-short C08 caught
c09-any-tag C09 equivalent
c09-any-tag C10 equivalent
c09-centres C09 caught
c09-empty C09 equivalent
c09-empty C10 equivalent
c09-nobarrier C09 caught
c10-probe C10 equivalent
c10-ssend C10 caught
c11-hist-catch C11 caught
c11-noclose C11 equivalent
c11-track-catch C11 caught
c12-excl C12 caught
c12-rdwr-valid C12 caught
c12-summary-keep C12 caught
c12-trunc-or-fail C12 caught
c13-partial-ok C13 caught
c13-stat C13 equivalent
c14-last-only C14 caught
c14-pair-first C14 caught
c14-rows C14 caught
c15-add C15 caught
c15-track C15 caught
c16-clamp C16 caught
c16-full C16 caught
c16-wt-one C16 caught
c17-emin-le C17 caught
c17-stop C17 caught
c18-first C18 caught
c18-late-hist C03 caught
c18-late-hist C18 caught
c18-parent C18 caught
c19-kill C19 caught
c19-last-two C19 caught
c20-energy-bias C20 caught
c20-semi-sqrt C20 caught
c20-zero C20 caught
c21-pair-depth C21 missed
c21-photon-depth C21 caught
c21-thread-depth C21 caught
c22-dt C22 equivalent
c22-positron C22 caught
c23-slave-catch C23 equivalent
c24-dead C24 caught
c24-dtor C24 caught
c24-refused C24 caught
c25-progress-flush C25 caught
c26-corr C26 caught
c26-duration-axis C26 caught
c26-linear C26 caught
c27-focusing-case C27 caught
c27-pair-first C27 equivalent
c27-pol C27 caught
c28-hist-kill C18 equivalent
c28-hist-kill C28 equivalent
c28-out-firstevent C01 caught
c28-out-firstevent C28 caught
c28-track-draw C28 caught
c29-mpi-cut C29 caught
c29-mpi-tracks C29 caught
c29-omp-hist C03 caught
c29-omp-hist C29 caught
c03-mask C03 caught
c04-cap C04 caught
c02-cap C02 caught
c06-tid8 C06 caught
c10-histbar C10 equivalent
c01-sources C01 caught
c05-period C05 caught
c24-field C24 caught
c09-zero-rank C09 caught
c08-rank8 C08 caught
c15-hist C15 caught
c18-weight C16 caught
c18-weight C18 caught
c20-emin C20 caught
c26-late C26 caught
c26-antipar C26 caught
c16-lowpair C16 caught
c17-backward C17 caught
c21-slowdepth C21 caught
c22-negative C22 caught
c27-seed2 C27 caught
c29-fracname C29 caught
c12-lock C12 caught
c13-last C13 caught
