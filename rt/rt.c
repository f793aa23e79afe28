#define _GNU_SOURCE
#include "rt.h"
#include <errno.h>
#include <fcntl.h>
#include <libaio.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define NOINSTR __attribute__((no_instrument_function))

NOINSTR uint64_t
vf_now_ns(void)
{
   struct timespec ts;
   clock_gettime(CLOCK_MONOTONIC, &ts);
   return (uint64_t)ts.tv_sec * 1000000000ULL + ts.tv_nsec;
}

NOINSTR uint64_t
vf_hash_bytes(const void *p, size_t n, uint64_t seed)
{
   const unsigned char *b = p;
   uint64_t             h = vf_mix(seed ^ n);
   while (n >= 8) {
      uint64_t w;
      memcpy(&w, b, 8);
      h = (h ^ w) * 0x9fb21c651e98df25ULL;
      h ^= h >> 29;
      b += 8;
      n -= 8;
   }
   while (n--)
      h = (h ^ *b++) * 0x100000001b3ULL;
   return vf_mix(h);
}

/* ------------------------------------------------------------------ report */
#define MAXSTAT 256
static struct {
   char     name[64];
   uint64_t v;
   int      max;
} stats[MAXSTAT];
static int             nstats;
static pthread_mutex_t rep_lock = PTHREAD_MUTEX_INITIALIZER;
static int             nsamples;
static volatile int    nviol;

#define DSET (1 << 20)
static uint64_t       *dset;
static uint64_t        dcount;
static struct {
   char     name[32];
   uint64_t n;
} dcls[64];
static int ndcls;

static void
stat_upd(const char *name, uint64_t v, int max)
{
   pthread_mutex_lock(&rep_lock);
   int i;
   for (i = 0; i < nstats; i++)
      if (!strcmp(stats[i].name, name))
         break;
   if (i == nstats && nstats < MAXSTAT) {
      snprintf(stats[i].name, sizeof stats[i].name, "%s", name);
      stats[i].max = max;
      nstats++;
   }
   if (i < nstats) {
      if (max) {
         if (v > stats[i].v)
            stats[i].v = v;
      } else
         stats[i].v += v;
   }
   pthread_mutex_unlock(&rep_lock);
}
void
vf_stat(const char *name, uint64_t v)
{
   stat_upd(name, v, 0);
}
void
vf_statmax(const char *name, uint64_t v)
{
   stat_upd(name, v, 1);
}
void
vf_distinct(const char *cls, uint64_t h)
{
   pthread_mutex_lock(&rep_lock);
   int c;
   for (c = 0; c < ndcls; c++)
      if (!strcmp(dcls[c].name, cls))
         break;
   if (c == ndcls && ndcls < 64) {
      snprintf(dcls[c].name, sizeof dcls[c].name, "%s", cls);
      ndcls++;
   }
   h = vf_mix(h ^ vf_hash_bytes(cls, strlen(cls), 7)) | 1;
   if (!dset)
      dset = calloc(DSET, 8);
   if (dcount < DSET / 2) {
      uint64_t i = h & (DSET - 1);
      while (dset[i] && dset[i] != h)
         i = (i + 1) & (DSET - 1);
      if (!dset[i]) {
         dset[i] = h;
         dcount++;
         if (c < ndcls)
            dcls[c].n++;
         /* hash handed to the driver so distinctness is counted across runs */
      }
   }
   pthread_mutex_unlock(&rep_lock);
}
static void
dump(void)
{
   fflush(stdout);
   for (int i = 0; i < nstats; i++)
      printf("VF-STAT%s %s %lu\n", stats[i].max ? "MAX" : "", stats[i].name,
             stats[i].v);
   for (int i = 0; i < ndcls; i++)
      printf("VF-DCLS %s %lu\n", dcls[i].name, dcls[i].n);
   uint64_t printed = 0;
   if (dset)
      for (uint64_t i = 0; i < DSET && printed < 20000; i++)
         if (dset[i]) {
            printf("VF-D %lx\n", dset[i]);
            printed++;
         }
   fflush(stdout);
}
void
vf_violation_soft(const char *fmt, ...)
{
   char    buf[2048];
   va_list ap;
   va_start(ap, fmt);
   vsnprintf(buf, sizeof buf, fmt, ap);
   va_end(ap);
   for (char *p = buf; *p; p++)
      if (*p == '\n')
         *p = ' ';
   int n = __sync_add_and_fetch(&nviol, 1);
   if (n <= 20) {
      char out[2200];
      int  l = snprintf(out, sizeof out, "\nVF-VIOLATION %s\n", buf);
      if (write(1, out, l) < 0) {
      }
   }
}
void
vf_violation(const char *fmt, ...)
{
   char    buf[2048];
   va_list ap;
   va_start(ap, fmt);
   vsnprintf(buf, sizeof buf, fmt, ap);
   va_end(ap);
   vf_violation_soft("%s", buf);
   _exit(3);
}
void
vf_harness_error(const char *fmt, ...)
{
   char    buf[2048];
   va_list ap;
   va_start(ap, fmt);
   vsnprintf(buf, sizeof buf, fmt, ap);
   va_end(ap);
   char out[2200];
   int  l = snprintf(out, sizeof out, "\nVF-HARNESS-ERROR %s\n", buf);
   if (write(1, out, l) < 0) {
   }
   _exit(4);
}
void
vf_sample(const char *fmt, ...)
{
   if (__sync_add_and_fetch(&nsamples, 1) > 12)
      return;
   char    buf[1024];
   va_list ap;
   va_start(ap, fmt);
   vsnprintf(buf, sizeof buf, fmt, ap);
   va_end(ap);
   pthread_mutex_lock(&rep_lock);
   printf("VF-SAMPLE %s\n", buf);
   fflush(stdout);
   pthread_mutex_unlock(&rep_lock);
}
extern volatile uint64_t vf_points_total, vf_perturbs_total, vf_stalls_total;
void
vf_finish(void)
{
   vf_stat("sched_perturbations", vf_perturbs_total);
   vf_stat("sched_stalls", vf_stalls_total);
   vf_stat("dev_writes", vf_dev_writes);
   vf_stat("dev_reads", vf_dev_reads);
   vf_stat("dev_async_submits", vf_dev_submits);
   dump();
   printf("VF-DONE\n");
   fflush(stdout);
   if (nviol)
      _exit(3);
   exit(0);
}

/* ------------------------------------------------------------ perturbation */
static uint32_t          pt_period;
static uint32_t          pt_maxdelay;
static uint64_t          pt_seed;
static volatile uint64_t pt_threads;
volatile uint64_t        vf_points_total, vf_perturbs_total;

static __thread struct {
   uint64_t s;
   uint32_t left;
   int      init;
   int      in;
} pt;

NOINSTR void
vf_perturb_config(uint64_t seed, uint32_t period, uint32_t max_delay_ns)
{
   pt_seed     = seed;
   pt_maxdelay = max_delay_ns;
   pt_period   = period;
}

static NOINSTR __attribute__((noinline)) void
pt_slow(void)
{
   if (pt.in)
      return;
   pt.in = 1;
   if (!pt.init) {
      pt.init = 1;
      pt.s    = vf_mix(pt_seed ^ (__sync_add_and_fetch(&pt_threads, 1) << 20));
   }
   pt.s       = pt.s * 6364136223846793005ULL + 1442695040888963407ULL;
   uint64_t r = pt.s >> 20;
   uint64_t per = pt_period;
   /* heavy-tailed gap: mostly short bursts, sometimes long runs */
   if ((r & 7) == 0)
      pt.left = (r >> 8) % (per * 6 + 1) + 1;
   else
      pt.left = (r >> 8) % (per + 1) + 1;
   __sync_fetch_and_add(&vf_perturbs_total, 1);
   uint64_t k = (r >> 40) & 15;
   if (k < 8) {
      sched_yield();
   } else if (k < 14) {
      uint64_t spin = (r >> 3) % (pt_maxdelay / 8 + 1);
      uint64_t end  = vf_now_ns() + spin;
      while (vf_now_ns() < end) {
      }
   } else {
      struct timespec ts = {0, (long)((r >> 5) % (pt_maxdelay + 1))};
      nanosleep(&ts, NULL);
   }
   pt.in = 0;
}

NOINSTR void
vf_point(void)
{
   if (__builtin_expect(pt_period == 0, 1))
      return;
   if (__builtin_expect(pt.left-- == 0, 0))
      pt_slow();
}

/* Long stalls at a few places.  A place is a pair of function and call site; the
 * seed selects which places stall, and each selected place stalls now and then
 * (less often the more often it is passed) for up to milliseconds, which keeps
 * windows of a few instructions open for as long as whole background jobs take. */
static uint32_t          st_one_in, st_max_us;
static volatile int64_t  st_budget_us;
static uint64_t          st_seed;
volatile uint64_t        vf_stalls_total;
static volatile uint32_t st_hits[4096];
static int               st_only; /* only threads that asked for it */
__thread int             vf_stall_me;
void
vf_stall_only_marked(void)
{
   st_only = 1;
}
void
vf_stall_config(uint64_t seed, uint32_t one_in, uint32_t max_us, uint64_t budget_us)
{
   st_seed      = seed;
   st_max_us    = max_us;
   st_budget_us = budget_us;
   st_one_in    = one_in;
}
extern char __executable_start;
static NOINSTR void
st_point(void *f, void *c, uint64_t kind)
{
   uint64_t a = (uint64_t)((char *)f - &__executable_start);
   uint64_t b = (uint64_t)((char *)c - &__executable_start);
   uint64_t h = (a * 0x9e3779b97f4a7c15ULL ^ b * 0xc2b2ae3d27d4eb4fULL ^ st_seed ^ kind) * 0xff51afd7ed558ccdULL;
   h ^= h >> 29;
   if (h % st_one_in || (st_only && !vf_stall_me))
      return;
   uint32_t hits = __sync_fetch_and_add(&st_hits[(h >> 32) & 4095], 1);
   h             = vf_mix(h ^ hits);
   if (h % (2 + hits / 16) || st_budget_us <= 0)
      return;
   uint32_t us = (h >> 24) % (st_max_us + 1);
   if ((h >> 20) & 3) /* mostly short */
      us /= 8;
   if (__sync_fetch_and_sub(&st_budget_us, us) <= 0)
      return;
   __sync_fetch_and_add(&vf_stalls_total, 1);
   struct timespec ts = {0, us * 1000L};
   nanosleep(&ts, NULL);
}
NOINSTR void
__cyg_profile_func_enter(void *f, void *c)
{
   if (__builtin_expect(st_one_in != 0, 0))
      st_point(f, c, 0);
   vf_point();
}
NOINSTR void
__cyg_profile_func_exit(void *f, void *c)
{
   if (__builtin_expect(st_one_in != 0, 0))
      st_point(f, c, 0x5555);
}

/* ------------------------------------------------------------------ device */
static vf_dev_cfg dcfg;
volatile uint64_t vf_dev_writes, vf_dev_reads, vf_dev_bytes_written;
volatile uint64_t vf_dev_faults_fired, vf_dev_overlaps_seen,
   vf_dev_inflight_max, vf_dev_submits;
static uint64_t        crash_at = UINT64_MAX, crash_torn;
static uint64_t        fault_w = UINT64_MAX, fault_r = UINT64_MAX;
static int             fault_wk, fault_rk;
static vf_wlog        *wlog;
static volatile uint64_t nwlog;
#define WLOGMAX (1 << 20)

void
vf_dev_config(const vf_dev_cfg *c)
{
   dcfg = *c;
}
void
vf_dev_crash_at(uint64_t n, uint64_t torn)
{
   crash_torn = torn;
   crash_at   = n;
}
void
vf_dev_fault_write(uint64_t n, int k)
{
   fault_wk = k;
   fault_w  = n;
}
void
vf_dev_fault_read(uint64_t n, int k)
{
   fault_rk = k;
   fault_r  = n;
}
void
vf_dev_log_start(void)
{
   if (!wlog)
      wlog = malloc(sizeof(vf_wlog) * WLOGMAX);
   nwlog = 0;
}
uint64_t
vf_dev_log_get(vf_wlog **out)
{
   *out = wlog;
   return nwlog < WLOGMAX ? nwlog : WLOGMAX;
}

ssize_t __real_pwrite(int, const void *, size_t, off_t);
ssize_t __real_pread(int, void *, size_t, off_t);
int     __real_io_submit(io_context_t, long, struct iocb **);
int     __real_io_setup(int, io_context_t *);
int     __real_io_destroy(io_context_t);
int     __real_io_getevents(io_context_t,
                            long,
                            long,
                            struct io_event *,
                            struct timespec *);

/* returns fault kind for this write; may not return at all */
static int
on_write(int fd, const struct iovec *iov, int cnt, uint64_t off)
{
   uint64_t len = 0;
   for (int i = 0; i < cnt; i++)
      len += iov[i].iov_len;
   uint64_t n = __sync_add_and_fetch(&vf_dev_writes, 1);
   __sync_fetch_and_add(&vf_dev_bytes_written, len);
   if (wlog) {
      uint64_t i = __sync_fetch_and_add(&nwlog, 1);
      if (i < WLOGMAX) {
         wlog[i].off = off;
         wlog[i].len = len;
      }
   }
   if (n >= crash_at) {
      if (n == crash_at) {
         uint64_t left = crash_torn < len ? crash_torn : len;
         uint64_t o    = off;
         for (int i = 0; i < cnt && left; i++) {
            uint64_t l = iov[i].iov_len < left ? iov[i].iov_len : left;
            if (__real_pwrite(fd, iov[i].iov_base, l, o) < 0) {
            }
            o += l;
            left -= l;
         }
         _exit(99);
      }
      /* another thread is dying: never reach the device */
      for (;;)
         pause();
   }
   if (n == fault_w) {
      __sync_fetch_and_add(&vf_dev_faults_fired, 1);
      return fault_wk;
   }
   return VF_FAULT_NONE;
}
static int
on_read(void)
{
   uint64_t n = __sync_add_and_fetch(&vf_dev_reads, 1);
   if (n == fault_r) {
      __sync_fetch_and_add(&vf_dev_faults_fired, 1);
      return fault_rk;
   }
   return VF_FAULT_NONE;
}

ssize_t
__wrap_pwrite(int fd, const void *b, size_t n, off_t o)
{
   struct iovec iov = {(void *)b, n};
   int          f   = on_write(fd, &iov, 1, o);
   if (f == VF_FAULT_EIO) {
      errno = EIO;
      return -1;
   }
   if (f == VF_FAULT_SHORT)
      return __real_pwrite(fd, b, n / 2, o);
   return __real_pwrite(fd, b, n, o);
}
ssize_t
__wrap_pwrite64(int fd, const void *b, size_t n, off_t o)
{
   return __wrap_pwrite(fd, b, n, o);
}
ssize_t
__wrap_pread(int fd, void *b, size_t n, off_t o)
{
   int f = on_read();
   if (f == VF_FAULT_EIO) {
      errno = EIO;
      return -1;
   }
   if (f == VF_FAULT_SHORT)
      return __real_pread(fd, b, n / 2, o);
   return __real_pread(fd, b, n, o);
}
ssize_t
__wrap_pread64(int fd, void *b, size_t n, off_t o)
{
   return __wrap_pread(fd, b, n, o);
}

/* ---- emulated async device ---- */
typedef struct ereq {
   struct iocb   *cb;
   struct ereq   *next;
   uint64_t       due_ns;
   uint64_t       buf_hash;
   int            done;
   int            is_write;
   int            fault;
   uint64_t       off, len;
   long           res;
} ereq;
typedef struct ectx {
   pthread_mutex_t lock;
   ereq           *head; /* all outstanding */
   int             dead;
} ectx;
#define MAXINF 4096
static pthread_mutex_t inf_lock = PTHREAD_MUTEX_INITIALIZER;
static struct {
   uint64_t off, len;
   int      w, fd;
} inf[MAXINF];
static int      ninf;
static vf_rng   emu_rng;

static int
is_write_op(struct iocb *cb)
{
   return cb->aio_lio_opcode == IO_CMD_PWRITEV
          || cb->aio_lio_opcode == IO_CMD_PWRITE;
}
static void
cb_iov(struct iocb *cb, const struct iovec **iov, int *cnt, struct iovec *tmp)
{
   if (cb->aio_lio_opcode == IO_CMD_PWRITEV
       || cb->aio_lio_opcode == IO_CMD_PREADV)
   {
      *iov = (const struct iovec *)cb->u.c.buf;
      *cnt = cb->u.c.nbytes;
   } else {
      tmp->iov_base = cb->u.c.buf;
      tmp->iov_len  = cb->u.c.nbytes;
      *iov          = tmp;
      *cnt          = 1;
   }
}
static uint64_t
iov_hash(const struct iovec *iov, int cnt)
{
   uint64_t h = 1;
   for (int i = 0; i < cnt; i++)
      h = vf_hash_bytes(iov[i].iov_base, iov[i].iov_len, h);
   return h;
}

int
__wrap_io_setup(int n, io_context_t *ctx)
{
   if (dcfg.mode == VF_DEV_PASS)
      return __real_io_setup(n, ctx);
   ectx *e = calloc(1, sizeof *e);
   pthread_mutex_init(&e->lock, NULL);
   *ctx = (io_context_t)e;
   return 0;
}
int
__wrap_io_destroy(io_context_t ctx)
{
   if (dcfg.mode == VF_DEV_PASS)
      return __real_io_destroy(ctx);
   ectx *e = (ectx *)ctx;
   if (e->head)
      vf_violation_soft("device: async context destroyed with requests still "
                        "outstanding");
   free(e);
   return 0;
}
int
__wrap_io_submit(io_context_t ctx, long nr, struct iocb **cbs)
{
   __sync_fetch_and_add(&vf_dev_submits, nr);
   if (dcfg.mode == VF_DEV_PASS) {
      for (long i = 0; i < nr; i++) {
         if (is_write_op(cbs[i])) {
            struct iovec        tmp;
            const struct iovec *iov;
            int                 cnt;
            cb_iov(cbs[i], &iov, &cnt, &tmp);
            (void)on_write(cbs[i]->aio_fildes, iov, cnt, cbs[i]->u.c.offset);
         } else
            (void)on_read();
      }
      return __real_io_submit(ctx, nr, cbs);
   }
   ectx *e = (ectx *)ctx;
   for (long i = 0; i < nr; i++) {
      struct iocb        *cb = cbs[i];
      struct iovec        tmp;
      const struct iovec *iov;
      int                 cnt;
      cb_iov(cb, &iov, &cnt, &tmp);
      ereq *q     = calloc(1, sizeof *q);
      q->cb       = cb;
      q->is_write = is_write_op(cb);
      q->off      = cb->u.c.offset;
      for (int j = 0; j < cnt; j++)
         q->len += iov[j].iov_len;
      q->fault =
         q->is_write ? on_write(cb->aio_fildes, iov, cnt, q->off) : on_read();
      if (dcfg.monitor && q->is_write)
         q->buf_hash = iov_hash(iov, cnt);
      pthread_mutex_lock(&inf_lock);
      uint64_t delay =
         dcfg.max_delay_us ? vf_rand(&emu_rng) % (dcfg.max_delay_us * 1000ULL) : 0;
      if (dcfg.monitor) {
         for (int j = 0; j < ninf; j++) {
            if (inf[j].fd == cb->aio_fildes && inf[j].off < q->off + q->len
                && q->off < inf[j].off + inf[j].len
                && (inf[j].w || q->is_write))
            {
               __sync_fetch_and_add(&vf_dev_overlaps_seen, 1);
               vf_violation_soft(
                  "device: %s of [%lu,+%lu) submitted while a %s of [%lu,+%lu) "
                  "is still in flight",
                  q->is_write ? "write" : "read", q->off, q->len,
                  inf[j].w ? "write" : "read", inf[j].off, inf[j].len);
            }
         }
         if (ninf < MAXINF) {
            inf[ninf].off = q->off;
            inf[ninf].len = q->len;
            inf[ninf].w   = q->is_write;
            inf[ninf].fd  = cb->aio_fildes;
            ninf++;
         }
         if ((uint64_t)ninf > vf_dev_inflight_max)
            vf_dev_inflight_max = ninf;
      }
      pthread_mutex_unlock(&inf_lock);
      q->due_ns = vf_now_ns() + delay;
      pthread_mutex_lock(&e->lock);
      q->next = e->head;
      e->head = q;
      pthread_mutex_unlock(&e->lock);
   }
   return nr;
}
int
__wrap_io_getevents(io_context_t     ctx,
                    long             min_nr,
                    long             nr,
                    struct io_event *ev,
                    struct timespec *ts)
{
   if (dcfg.mode == VF_DEV_PASS)
      return __real_io_getevents(ctx, min_nr, nr, ev, ts);
   ectx *e = (ectx *)ctx;
   int   n = 0;
   do {
      pthread_mutex_lock(&e->lock);
      uint64_t now = vf_now_ns();
      ereq   **best = NULL;
      for (ereq **p = &e->head; *p; p = &(*p)->next)
         if ((*p)->due_ns <= now && (!best || (*p)->due_ns < (*best)->due_ns))
            best = p;
      ereq *q = NULL;
      if (best) {
         q     = *best;
         *best = q->next;
      }
      pthread_mutex_unlock(&e->lock);
      if (!q) {
         if (n >= min_nr) {
            if (min_nr == 0 && n == 0)
               sched_yield();
            break;
         }
         sched_yield();
         continue;
      }
      struct iovec        tmp;
      const struct iovec *iov;
      int                 cnt;
      cb_iov(q->cb, &iov, &cnt, &tmp);
      if (q->fault == VF_FAULT_EIO)
         q->res = -EIO;
      else if (q->fault == VF_FAULT_SHORT)
         q->res = q->len / 2 / 4096 * 4096;
      else if (q->is_write)
         q->res = pwritev(q->cb->aio_fildes, iov, cnt, q->off);
      else
         q->res = preadv(q->cb->aio_fildes, iov, cnt, q->off);
      if (dcfg.monitor) {
         if (q->is_write && iov_hash(iov, cnt) != q->buf_hash)
            vf_violation_soft("device: buffer of an in-flight write at offset "
                              "%lu (+%lu) was modified before the write "
                              "completed",
                              q->off, q->len);
         pthread_mutex_lock(&inf_lock);
         for (int j = 0; j < ninf; j++)
            if (inf[j].off == q->off && inf[j].len == q->len
                && inf[j].w == q->is_write && inf[j].fd == q->cb->aio_fildes)
            {
               inf[j] = inf[--ninf];
               break;
            }
         pthread_mutex_unlock(&inf_lock);
      }
      ev[n].obj  = q->cb;
      ev[n].data = q->cb->data;
      ev[n].res  = q->res;
      ev[n].res2 = 0;
      n++;
      free(q);
   } while (n < nr);
   return n;
}

/* -------------------------------------------------------------------- args */
uint64_t
vf_arg_u64(int argc, char **argv, const char *name, uint64_t d)
{
   const char *s = vf_arg_str(argc, argv, name, NULL);
   return s ? strtoull(s, NULL, 0) : d;
}
const char *
vf_arg_str(int argc, char **argv, const char *name, const char *d)
{
   for (int i = 1; i + 1 < argc; i++)
      if (!strncmp(argv[i], "--", 2) && !strcmp(argv[i] + 2, name))
         return argv[i + 1];
   return d;
}

/* ---------------------------------------------- stacks of a dying process */
#include <execinfo.h>
#include <signal.h>
static NOINSTR void
on_fatal(int sig)
{
   void *bt[40];
   int   n = backtrace(bt, 40);
   static const char m[] = "VF-STACK\n";
   if (write(2, m, sizeof m - 1)) {
   }
   backtrace_symbols_fd(bt, n, 2);
   signal(sig, SIG_DFL);
   raise(sig);
}
__attribute__((constructor)) static NOINSTR void
fatal_init(void)
{
   void *bt[2];
   backtrace(bt, 2); /* load the unwinder now */
   signal(SIGABRT, on_fatal);
#ifndef __SANITIZE_ADDRESS__
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#endif
#ifndef VF_ASAN
   signal(SIGSEGV, on_fatal);
   signal(SIGBUS, on_fatal);
   signal(SIGFPE, on_fatal);
#endif
#endif
}
