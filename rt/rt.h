/* Runtime shared by all harnesses: schedule perturbation, virtual device,
 * monitors on device traffic, PRNG, statistics, violation reporting. */
#ifndef VF_RT_H
#define VF_RT_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>

#ifdef __cplusplus
extern "C" {
#endif

/* ---- reporting ---- */
void vf_violation(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void vf_violation_soft(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void vf_harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void vf_stat(const char *name, uint64_t v);   /* additive across runs */
void vf_statmax(const char *name, uint64_t v);
void vf_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void vf_distinct(const char *cls, uint64_t h); /* record a distinct situation */
void vf_finish(void);                          /* print stats, exit 0 (or 3) */

#define VF_CHECK(cond, ...)                                                    \
   do {                                                                        \
      if (!(cond))                                                             \
         vf_violation(__VA_ARGS__);                                            \
   } while (0)
#define VF_ENV(cond, ...)                                                      \
   do {                                                                        \
      if (!(cond))                                                             \
         vf_harness_error(__VA_ARGS__);                                        \
   } while (0)

/* ---- PRNG ---- */
typedef struct vf_rng {
   uint64_t s;
} vf_rng;
static inline uint64_t
vf_mix(uint64_t x)
{
   x += 0x9e3779b97f4a7c15ULL;
   x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
   x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
   return x ^ (x >> 31);
}
static inline uint64_t
vf_rand(vf_rng *r)
{
   r->s += 0x9e3779b97f4a7c15ULL;
   uint64_t x = r->s;
   x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
   x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
   return x ^ (x >> 31);
}
static inline uint64_t
vf_below(vf_rng *r, uint64_t n)
{
   return n ? vf_rand(r) % n : 0;
}
static inline bool
vf_chance(vf_rng *r, uint64_t num, uint64_t den)
{
   return vf_rand(r) % den < num;
}

/* ---- schedule perturbation ---- */
/* period: mean number of schedule points between perturbations; 0 = off */
void vf_perturb_config(uint64_t seed, uint32_t period, uint32_t max_delay_ns);
void vf_stall_config(uint64_t seed, uint32_t one_in, uint32_t max_us, uint64_t budget_us);
void vf_stall_only_marked(void);
extern __thread int vf_stall_me;
void vf_point(void);

/* ---- virtual device ---- */
enum { VF_DEV_PASS = 0, VF_DEV_EMU = 1 };
typedef struct vf_dev_cfg {
   int      mode;          /* PASS: libaio as is; EMU: emulated async device */
   uint32_t max_delay_us;  /* EMU: random completion delay                    */
   bool     monitor;       /* EMU: overlap + buffer-stability monitors        */
   uint64_t seed;
} vf_dev_cfg;
void vf_dev_config(const vf_dev_cfg *cfg);

/* Crash / fault injection.  Counts device write operations (pwrite calls and
 * async write submissions) issued by this process. */
extern volatile uint64_t vf_dev_writes;  /* completed + started            */
extern volatile uint64_t vf_dev_reads;
extern volatile uint64_t vf_dev_bytes_written;
/* die (SIGKILL-like _exit(99)) at write number n (1-based); torn: how many
 * bytes of that write reach the device first (0 = none). UINT64_MAX torn=all */
void vf_dev_crash_at(uint64_t n, uint64_t torn_bytes);
/* fail the nth write/read with given kind */
enum { VF_FAULT_NONE, VF_FAULT_EIO, VF_FAULT_SHORT };
void vf_dev_fault_write(uint64_t n, int kind);
void vf_dev_fault_read(uint64_t n, int kind);
extern volatile uint64_t vf_dev_faults_fired;
extern volatile uint64_t vf_dev_overlaps_seen;
extern volatile uint64_t vf_dev_inflight_max;
extern volatile uint64_t vf_dev_submits;
/* optional write log: addr,len for each write op */
typedef struct vf_wlog {
   uint64_t off, len;
} vf_wlog;
void vf_dev_log_start(void);
uint64_t vf_dev_log_get(vf_wlog **out);

uint64_t vf_now_ns(void);
uint64_t vf_hash_bytes(const void *p, size_t n, uint64_t seed);

/* simple argument parsing: --name value */
uint64_t    vf_arg_u64(int argc, char **argv, const char *name, uint64_t dflt);
const char *vf_arg_str(int argc, char **argv, const char *name, const char *dflt);
/* silence library log output (stderr/stdout log handles) */
#ifdef __cplusplus
}
#endif
#endif
