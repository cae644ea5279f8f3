X(memcpy) X(memmove) X(memset) X(memcmp) X(memchr) X(strlen) X(strcmp) X(malloc) X(free) X(realloc) X(calloc) X(_Znwm) X(_Znam) X(_ZdlPv) X(_ZdaPv) X(_ZdlPvm) X(_ZdaPvm)
X(__cxa_begin_catch) X(__cxa_end_catch) X(__cxa_allocate_exception) X(__cxa_free_exception) X(__cxa_guard_acquire) X(__cxa_guard_release) X(__cxa_guard_abort)
X(__cxa_atexit) X(__cxa_pure_virtual) X(__clang_call_terminate) X(_ZSt9terminatev) X(abort) X(__assert_fail) X(isspace) X(tolower) X(toupper) X(isdigit) X(isalpha) X(isalnum) X(isxdigit)
X(fmod) X(fmodf) X(floor) X(floorf) X(ceil) X(ceilf) X(trunc) X(fabs) X(fabsf) X(strncmp) X(bcmp) X(rint) X(modf) X(remainder)
X(__vp_region) X(__vp_alloc) X(__vp_free) X(__vp_havoc) X(__vp_same_object) X(__vp_obj_size) X(__vp_dyn_count) X(__gxx_personality_v0) X(__vp_valid) X(__vp_track) X(__vp_track_new) X(__vp_size_any) X(__vp_offset) X(__vp_witness) X(__vp_track_new_also)
