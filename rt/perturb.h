/*
 * Force-included (-include) into every SplinterDB translation unit of the
 * instrumented builds.  Every atomic builtin the code uses becomes a schedule
 * point: vf_point() may yield or delay the calling thread before the atomic is
 * executed.  Semantics are unchanged.
 */
#ifndef VF_PERTURB_H
#define VF_PERTURB_H
#ifdef __cplusplus
extern "C" {
#endif
void vf_point(void);
#ifdef __cplusplus
}
#endif
#define __sync_fetch_and_add(...) (vf_point(), __sync_fetch_and_add(__VA_ARGS__))
#define __sync_fetch_and_sub(...) (vf_point(), __sync_fetch_and_sub(__VA_ARGS__))
#define __sync_add_and_fetch(...) (vf_point(), __sync_add_and_fetch(__VA_ARGS__))
#define __sync_sub_and_fetch(...) (vf_point(), __sync_sub_and_fetch(__VA_ARGS__))
#define __sync_fetch_and_or(...) (vf_point(), __sync_fetch_and_or(__VA_ARGS__))
#define __sync_fetch_and_and(...) (vf_point(), __sync_fetch_and_and(__VA_ARGS__))
#define __sync_or_and_fetch(...) (vf_point(), __sync_or_and_fetch(__VA_ARGS__))
#define __sync_and_and_fetch(...) (vf_point(), __sync_and_and_fetch(__VA_ARGS__))
#define __sync_bool_compare_and_swap(...) \
   (vf_point(), __sync_bool_compare_and_swap(__VA_ARGS__))
#define __sync_val_compare_and_swap(...) \
   (vf_point(), __sync_val_compare_and_swap(__VA_ARGS__))
#define __sync_lock_test_and_set(...) \
   (vf_point(), __sync_lock_test_and_set(__VA_ARGS__))
#define __sync_lock_release(...) (vf_point(), __sync_lock_release(__VA_ARGS__))
#define __sync_synchronize(...) (vf_point(), __sync_synchronize(__VA_ARGS__))
#define __atomic_load_n(...) (vf_point(), __atomic_load_n(__VA_ARGS__))
#define __atomic_store_n(...) (vf_point(), __atomic_store_n(__VA_ARGS__))
#define __atomic_exchange_n(...) (vf_point(), __atomic_exchange_n(__VA_ARGS__))
#define __atomic_compare_exchange_n(...) \
   (vf_point(), __atomic_compare_exchange_n(__VA_ARGS__))
#define __atomic_fetch_add(...) (vf_point(), __atomic_fetch_add(__VA_ARGS__))
#define __atomic_fetch_sub(...) (vf_point(), __atomic_fetch_sub(__VA_ARGS__))
#define __atomic_add_fetch(...) (vf_point(), __atomic_add_fetch(__VA_ARGS__))
#define __atomic_sub_fetch(...) (vf_point(), __atomic_sub_fetch(__VA_ARGS__))
#endif
