/*
 * Cache component monitor (C09 contents, C10 locks, C11 device traffic).
 *
 * Threads read, claim, write, pin, prefetch, sync, asynchronously get, discard
 * and reallocate pages of a working set much larger than the cache.  Every
 * page is filled with a pattern of (address, version); a shadow of the locks
 * held and of the version last written judges every observation.
 */
#include "comp.h"

#define MAXEXT 512
typedef struct xpage {
   volatile uint32_t version; /* of the contents; changed under the write lock */
   volatile int32_t  readers; /* holders of any lock, counted inside the hold  */
   volatile int32_t  claimer, writer; /* 1 + thread */
   volatile int32_t  pins;
} xpage;
typedef struct xext {
   uint64_t         addr;
   uint32_t         n; /* pages handed out */
   pthread_rwlock_t lk; /* shared: in use; exclusive: recycle */
   xpage            p[PPE];
} xext;
static xext     X[MAXEXT];
static uint32_t NX, NT;
static comp     C;
static uint64_t SEED;
static uint32_t opsper, w_read, w_write, w_async, w_multi, w_recycle, w_prefetch, w_pin, w_sync, w_nb;
static uint32_t hotpages;
static pthread_barrier_t B;
static volatile uint32_t vclock = 1;

static uint64_t S_reads, S_writes, S_claimfail, S_async_io, S_async_hit, S_async_retry, S_recycle,
   S_prefetch, S_pins, S_sync, S_rounds, S_disk, S_nb, S_nbmiss, S_multi, S_reader_max, S_claimheld,
   S_waits, S_remount, S_extsync;

static inline uint64_t
word(uint64_t addr, uint32_t ver, uint32_t i)
{
   return vf_mix(addr * 31 + ver) + (uint64_t)i * 0x9e3779b97f4a7c15ULL;
}
static void
fill(char *d, uint64_t addr, uint32_t ver, uint32_t from, uint32_t to)
{
   uint64_t b = vf_mix(addr * 31 + ver), *w = (uint64_t *)d;
   for (uint32_t i = from; i < to; i++)
      w[i] = i == 0 ? addr : i == 1 ? ver : b + (uint64_t)i * 0x9e3779b97f4a7c15ULL;
}
static void
check_content(const char *d, uint64_t addr, uint32_t ver, const char *what)
{
   const uint64_t *w = (const uint64_t *)d;
   uint64_t        b = vf_mix(addr * 31 + ver);
   VF_CHECK(w[0] == addr, "%s: page %lu shows contents of address %lu (version %lu, expected %u)",
            what, addr, w[0], w[1], ver);
   if (w[1] != ver && getenv("VFDBG")) {
      for (uint32_t e = 0; e < NX; e++)
         if (X[e].addr / ESZ == addr / ESZ) {
            uint32_t p = (addr % ESZ) / PSZ;
            dprintf(2, "ext %u n %u page %u version %u readers %d claimer %d writer %d; w1 %lu now %lu data %p\n", e, X[e].n, p,
                    X[e].p[p].version, X[e].p[p].readers, X[e].p[p].claimer, X[e].p[p].writer, w[1], *(volatile uint64_t *)(d + 8), d);
         }
   }
   VF_CHECK(w[1] == ver, "%s: page %lu shows version %lu, the last one written is %u", what, addr,
            w[1], ver);
   for (uint32_t i = 2; i < PSZ / 8; i++)
      VF_CHECK(w[i] == b + (uint64_t)i * 0x9e3779b97f4a7c15ULL,
               "%s: page %lu version %u has wrong contents at offset %u", what, addr, ver, i * 8);
}

typedef struct hold {
   uint32_t     e, p;
   page_handle *h;
} hold;
static __thread int    me;
static __thread vf_rng R;

static inline xpage *
XP(hold *k)
{
   return &X[k->e].p[k->p];
}
static inline uint64_t
addr_of(uint32_t e, uint32_t p)
{
   return X[e].addr + p * PSZ;
}
/* a read lock was just obtained */
static void
got(hold *k, const char *what)
{
   xpage *x = XP(k);
   int    n = __sync_add_and_fetch(&x->readers, 1);
   if ((uint64_t)n > S_reader_max)
      S_reader_max = n;
   VF_CHECK(k->h != NULL, "%s: no page returned", what);
   VF_CHECK(k->h->disk_addr == addr_of(k->e, k->p), "%s: handle of page %lu, asked for %lu", what,
            k->h->disk_addr, addr_of(k->e, k->p));
   int w = x->writer;
   VF_CHECK(w == 0, "%s: read lock on page %lu granted while thread %d holds the write lock", what,
            addr_of(k->e, k->p), w - 1);
   check_content(k->h->data, addr_of(k->e, k->p), x->version, what);
   __sync_fetch_and_add(&S_reads, 1);
}
static void
recheck(hold *k, const char *what)
{
   xpage *x = XP(k);
   VF_CHECK(k->h->disk_addr == addr_of(k->e, k->p), "%s: page %lu was replaced by %lu while held",
            what, addr_of(k->e, k->p), k->h->disk_addr);
   VF_CHECK(x->writer == 0 || x->writer == me + 1, "%s: page %lu write locked by %d under a reader",
            what, addr_of(k->e, k->p), x->writer - 1);
   check_content(k->h->data, addr_of(k->e, k->p), x->version, what);
}
static void
unget(hold *k)
{
   __sync_sub_and_fetch(&XP(k)->readers, 1);
   cache_unget(C_CC(&C), k->h);
}
static bool
claim(hold *k)
{
   xpage *x = XP(k);
   if (!cache_try_claim(C_CC(&C), k->h)) {
      __sync_fetch_and_add(&S_claimfail, 1);
      if (vf_chance(&R, 1, 2))
         vf_pause(&R);
      recheck(k, "after a failed claim");
      return false;
   }
   int c = __sync_val_compare_and_swap(&x->claimer, 0, me + 1);
   VF_CHECK(c == 0, "claim on page %lu granted to thread %d while thread %d holds it",
            addr_of(k->e, k->p), me, c - 1);
   recheck(k, "after a claim");
   return true;
}
static void
unclaim(hold *k)
{
   xpage *x = XP(k);
   int    c = __sync_val_compare_and_swap(&x->claimer, me + 1, 0);
   VF_CHECK(c == me + 1, "claim of thread %d was taken by %d", me, c - 1);
   cache_unclaim(C_CC(&C), k->h);
}
static void
lock(hold *k)
{
   xpage *x = XP(k);
   if (x->readers > 1)
      __sync_fetch_and_add(&S_waits, 1);
   cache_lock(C_CC(&C), k->h);
   x->writer = me + 1;
   __sync_synchronize();
   int n = x->readers;
   VF_CHECK(n == 1, "write lock on page %lu granted while %d other threads hold a lock",
            addr_of(k->e, k->p), n - 1);
   VF_CHECK(k->h->disk_addr == addr_of(k->e, k->p), "page %lu replaced while being locked",
            addr_of(k->e, k->p));
   check_content(k->h->data, addr_of(k->e, k->p), x->version, "under the write lock");
}
static void
unlock(hold *k)
{
   xpage *x = XP(k);
   int    n = x->readers;
   VF_CHECK(n == 1, "page %lu: %d other threads hold a lock during a write", addr_of(k->e, k->p),
            n - 1);
   x->writer = 0;
   __sync_synchronize();
   cache_unlock(C_CC(&C), k->h);
}
static void
write_page(hold *k)
{
   xpage   *x = XP(k);
   uint64_t a = addr_of(k->e, k->p);
   uint32_t v = __sync_add_and_fetch(&vclock, 1);
   if (vf_chance(&R, 1, 8))
      return; /* a write lock without a change */
   bool first = vf_chance(&R, 1, 2);
   if (first)
      cache_mark_dirty(C_CC(&C), k->h);
   uint32_t cut = vf_below(&R, PSZ / 8);
   fill(k->h->data, a, v, cut, PSZ / 8);
   if (vf_chance(&R, 1, 4))
      vf_pause(&R);
   fill(k->h->data, a, v, 0, cut);
   x->version = v;
   if (!first)
      cache_mark_dirty(C_CC(&C), k->h);
   __sync_fetch_and_add(&S_writes, 1);
}
/* Pages of some extents are used by one thread only, as the log uses its
 * pages: only those may be synced while just a read lock is held. */
#define OWNED(e) ((e) % 8 == 7)
#define OWNER(e) (((e) / 8) % NT)
static bool
pick(uint32_t *e, uint32_t *p)
{
   for (int i = 0; i < 8; i++) {
      uint32_t g = vf_chance(&R, 1, 3) ? vf_below(&R, hotpages) : vf_below(&R, NX * PPE);
      uint32_t q = g % NX;
      if (OWNED(q) && OWNER(q) != (uint32_t)me)
         continue;
      if (pthread_rwlock_tryrdlock(&X[q].lk))
         continue;
      if (X[q].n == 0) {
         pthread_rwlock_unlock(&X[q].lk);
         continue;
      }
      *e = q;
      *p = (g / NX) % X[q].n;
      return true;
   }
   return false;
}
static void
put(uint32_t e)
{
   pthread_rwlock_unlock(&X[e].lk);
}

static void
op_read(bool blocking)
{
   hold k;
   if (!pick(&k.e, &k.p))
      return;
   k.h = cache_get(C_CC(&C), addr_of(k.e, k.p), blocking, PAGE_TYPE_MISC);
   if (!blocking) {
      __sync_fetch_and_add(&S_nb, 1);
      if (k.h == NULL) {
         __sync_fetch_and_add(&S_nbmiss, 1);
         put(k.e);
         return;
      }
   }
   got(&k, blocking ? "get" : "non-blocking get");
   if (vf_chance(&R, 1, 3)) {
      vf_pause(&R);
      recheck(&k, "while held");
   }
   unget(&k);
   put(k.e);
}
static void
op_write(bool pin)
{
   hold k;
   if (!pick(&k.e, &k.p))
      return;
   k.h = cache_get(C_CC(&C), addr_of(k.e, k.p), TRUE, PAGE_TYPE_MISC);
   got(&k, "get for writing");
   if (!claim(&k)) {
      unget(&k);
      put(k.e);
      return;
   }
   if (vf_chance(&R, 1, 3)) {
      vf_pause(&R);
      recheck(&k, "while claimed");
   }
   if (vf_chance(&R, 1, 8)) { /* give up the claim without writing */
      unclaim(&k);
      unget(&k);
      put(k.e);
      return;
   }
   int turns = 1 + vf_below(&R, 2);
   for (int i = 0; i < turns; i++) {
      lock(&k);
      write_page(&k);
      if (pin && i == turns - 1)
         cache_pin(C_CC(&C), k.h);
      unlock(&k);
      recheck(&k, "after the write");
   }
   unclaim(&k);
   if (w_sync && OWNED(k.e) && vf_chance(&R, w_sync, 100)) {
      /* like the log: sync while only a read lock is held */
      cache_page_sync(C_CC(&C), k.h, vf_chance(&R, 1, 3), PAGE_TYPE_MISC);
      __sync_fetch_and_add(&S_sync, 1);
      recheck(&k, "after page sync");
   }
   page_handle *h = k.h;
   uint64_t     a = addr_of(k.e, k.p);
   unget(&k);
   if (pin) {
      __sync_fetch_and_add(&S_pins, 1);
      for (int i = 0; i < 3; i++)
         op_read(TRUE);
      VF_CHECK(h->disk_addr == a, "pinned page %lu was evicted", a);
      VF_CHECK(cache_present(C_CC(&C), h), "pinned page %lu is not present", a);
      cache_unpin(C_CC(&C), h);
   }
   put(k.e);
}
/* hold several pages, acquired in index order */
static int
cmp_hold(const void *a, const void *b)
{
   const hold *x = a, *y = b;
   uint64_t    p = addr_of(x->e, x->p), q = addr_of(y->e, y->p);
   return p < q ? -1 : p > q;
}
static void
op_multi(bool async)
{
   typedef struct actx {
      cache_async_ctxt ctxt;
      volatile int     fired;
   } actx;
   enum { MAXM = 8 };
   static __thread actx cx[MAXM];
   hold                 k[MAXM];
   bool                 io[MAXM] = {0}, have[MAXM] = {0};
   int                  n = 0, want = 1 + vf_below(&R, MAXM);
   for (int i = 0; i < want; i++)
      if (pick(&k[n].e, &k[n].p))
         n++;
   qsort(k, n, sizeof(*k), cmp_hold);
   /* the same page twice would wait for a writer that waits for us */
   int m = 0;
   for (int i = 0; i < n; i++)
      if (m && !cmp_hold(&k[m - 1], &k[i]))
         put(k[i].e);
      else
         k[m++] = k[i];
   n = m;
   if (!async) {
      __sync_fetch_and_add(&S_multi, 1);
      for (int i = 0; i < n; i++) {
         k[i].h = cache_get(C_CC(&C), addr_of(k[i].e, k[i].p), TRUE, PAGE_TYPE_MISC);
         got(&k[i], "get");
      }
      vf_pause(&R);
      for (int i = 0; i < n; i++)
         recheck(&k[i], "several held");
      while (n) {
         int i = vf_below(&R, n);
         unget(&k[i]);
         put(k[i].e);
         k[i] = k[--n];
      }
      return;
   }
   extern void vf_async_cb(cache_async_ctxt *);
   int         inflight = 0, done = n;
   for (int i = 0; i < n; i++) {
      cx[i].fired = 0;
      cache_ctxt_init(C_CC(&C), vf_async_cb, (void *)&cx[i].fired, &cx[i].ctxt);
      cache_async_result r =
         cache_get_async(C_CC(&C), addr_of(k[i].e, k[i].p), PAGE_TYPE_MISC, &cx[i].ctxt);
      if (r == async_success) {
         have[i] = true;
         k[i].h  = cx[i].ctxt.page;
         VF_CHECK(cx[i].fired == 0, "callback for a page that was in the cache");
         got(&k[i], "async get (hit)");
         __sync_fetch_and_add(&S_async_hit, 1);
      } else if (r == async_io_started) {
         have[i] = io[i] = true;
         inflight++;
      } else {
         __sync_fetch_and_add(&S_async_retry, 1);
      }
   }
   (void)done;
   while (inflight) {
      cache_cleanup(C_CC(&C));
      for (int i = 0; i < n; i++)
         if (io[i] && cx[i].fired) {
            VF_CHECK(cx[i].fired == 1, "callback %d times for one async get", cx[i].fired);
            VF_CHECK(SUCCESS(cx[i].ctxt.status), "async get reported an error");
            k[i].h = cx[i].ctxt.page;
            cache_async_done(C_CC(&C), PAGE_TYPE_MISC, &cx[i].ctxt);
            got(&k[i], "async get (read)");
            __sync_fetch_and_add(&S_async_io, 1);
            io[i] = false;
            inflight--;
         }
      if (vf_chance(&R, 1, 4))
         vf_pause(&R);
   }
   for (int i = 0; i < n; i++) {
      if (have[i]) {
         recheck(&k[i], "async held");
         VF_CHECK(cx[i].fired <= 1, "callback %d times for one async get", cx[i].fired);
         unget(&k[i]);
      }
      put(k[i].e);
   }
}
void
vf_async_cb(cache_async_ctxt *c)
{
   __sync_fetch_and_add((volatile int *)c->cbdata, 1);
}
static void
op_prefetch(void)
{
   uint32_t e = vf_below(&R, NX);
   if (pthread_rwlock_tryrdlock(&X[e].lk))
      return;
   if (X[e].n == PPE) {
      cache_prefetch(C_CC(&C), X[e].addr, PAGE_TYPE_MISC);
      __sync_fetch_and_add(&S_prefetch, 1);
   }
   put(e);
}
static void
new_extent(uint32_t e)
{
   platform_status rc = allocator_alloc(C_AL(&C), &X[e].addr, PAGE_TYPE_MISC);
   VF_CHECK(SUCCESS(rc), "allocation failed although space is free");
   X[e].n = vf_chance(&R, 1, 2) ? PPE : 1 + vf_below(&R, PPE);
   memset(X[e].p, 0, sizeof(X[e].p));
   for (uint32_t p = 0; p < X[e].n; p++) {
      hold k = {e, p, NULL};
      k.h    = cache_alloc(C_CC(&C), addr_of(e, p), PAGE_TYPE_MISC);
      VF_CHECK(k.h->disk_addr == addr_of(e, p), "alloc returned page %lu for %lu", k.h->disk_addr,
               addr_of(e, p));
      xpage *x   = XP(&k);
      x->readers = 1;
      x->claimer = x->writer = me + 1;
      uint32_t v = __sync_add_and_fetch(&vclock, 1);
      fill(k.h->data, addr_of(e, p), v, 0, PSZ / 8);
      x->version = v;
      if (vf_chance(&R, 1, 16))
         vf_pause(&R);
      check_content(k.h->data, addr_of(e, p), v, "freshly allocated page");
      unlock(&k);
      unclaim(&k);
      recheck(&k, "freshly allocated page");
      unget(&k);
   }
}
static void
op_recycle(void)
{
   uint32_t e = vf_below(&R, NX);
   if (pthread_rwlock_trywrlock(&X[e].lk))
      return;
   if (vf_chance(&R, 1, 2) && X[e].n == PPE)
      cache_prefetch(C_CC(&C), X[e].addr, PAGE_TYPE_MISC);
   uint8 ref = allocator_dec_ref(C_AL(&C), X[e].addr, PAGE_TYPE_MISC);
   VF_CHECK(ref == AL_NO_REFS, "extent has %u references, expected none", ref);
   cache_extent_discard(C_CC(&C), X[e].addr, PAGE_TYPE_MISC);
   ref = allocator_dec_ref(C_AL(&C), X[e].addr, PAGE_TYPE_MISC);
   VF_CHECK(ref == AL_FREE, "extent not free after release: %u", ref);
   new_extent(e);
   __sync_fetch_and_add(&S_recycle, 1);
   put(e);
}
static uint64_t ROUND;
static void
run_ops(uint32_t n)
{
   R.s = vf_mix(SEED * 1315423911u + me * 7919 + ROUND);
   uint32_t tot = w_read + w_write + w_async + w_multi + w_recycle + w_prefetch + w_pin + w_nb;
   for (uint32_t i = 0; i < n; i++) {
      uint32_t x = vf_below(&R, tot);
      if (x < w_read)
         op_read(TRUE);
      else if ((x -= w_read) < w_write)
         op_write(false);
      else if ((x -= w_write) < w_async)
         op_multi(true);
      else if ((x -= w_async) < w_multi)
         op_multi(false);
      else if ((x -= w_multi) < w_recycle)
         op_recycle();
      else if ((x -= w_recycle) < w_prefetch)
         op_prefetch();
      else if ((x -= w_prefetch) < w_pin)
         op_write(true);
      else
         op_read(FALSE);
   }
}
static void
check_disk(const char *when)
{
   int fd = open(C.file, O_RDONLY);
   VF_ENV(fd >= 0, "open %s", C.file);
   static char buf[ESZ];
   for (uint32_t e = 0; e < NX; e++) {
      VF_ENV(pread(fd, buf, ESZ, X[e].addr) > 0, "pread");
      for (uint32_t p = 0; p < X[e].n; p++) {
         check_content(buf + p * PSZ, addr_of(e, p), X[e].p[p].version, when);
         S_disk++;
      }
   }
   close(fd);
}
static void
check_all_reads(const char *what)
{
   for (uint32_t e = 0; e < NX; e++)
      for (uint32_t p = 0; p < X[e].n; p++) {
         hold k = {e, p, NULL};
         k.h    = cache_get(C_CC(&C), addr_of(e, p), TRUE, PAGE_TYPE_MISC);
         got(&k, what);
         VF_CHECK(cache_get_read_ref(C_CC(&C), k.h) == 1, "%u references on a page held once",
                  cache_get_read_ref(C_CC(&C), k.h));
         unget(&k);
      }
}
static volatile int STOP;
static void *
worker(void *a)
{
   me = (int)(intptr_t)a;
   platform_status rc = task_register_this_thread(C.ts, 0);
   VF_ENV(SUCCESS(rc), "register");
   while (1) {
      pthread_barrier_wait(&B);
      if (STOP)
         break;
      run_ops(opsper);
      cache_cleanup(C_CC(&C));
      pthread_barrier_wait(&B);
   }
   task_deregister_this_thread(C.ts);
   return NULL;
}

int
main(int argc, char **argv)
{
   SEED             = vf_arg_u64(argc, argv, "seed", 1);
   const char *dir  = vf_arg_str(argc, argv, "dir", ".");
   const char *mode = vf_arg_str(argc, argv, "mode", "content");
   opsper           = vf_arg_u64(argc, argv, "ops", 3000);
   uint64_t rounds  = vf_arg_u64(argc, argv, "rounds", 4);
   vf_rng   r       = {vf_mix(SEED)};
   bool     locks   = !strcmp(mode, "locks");
   NT               = locks ? 2 + vf_below(&r, 7) : 1 + vf_below(&r, 8);
   uint64_t cachemb = 2 + NT / 2 + vf_below(&r, 3);
   NX               = locks ? 2 + vf_below(&r, 30) : 32 + vf_below(&r, 200);
   hotpages         = locks ? 2 + vf_below(&r, 12) : 8 + vf_below(&r, 2000);
   w_read = 20 + vf_below(&r, 40), w_write = 10 + vf_below(&r, 60), w_async = vf_below(&r, 25);
   w_multi = vf_below(&r, 20), w_recycle = vf_chance(&r, 1, 4) ? 0 : 1 + vf_below(&r, 4);
   w_prefetch = vf_chance(&r, 1, 2) ? vf_below(&r, 10) : 0, w_pin = vf_below(&r, 8);
   w_sync = vf_chance(&r, 1, 2) ? vf_below(&r, 40) : 0, w_nb = vf_below(&r, 15);
   uint64_t qd      = 32 << vf_below(&r, 4);
   int      direct  = 0;
   (void)direct;
   vf_perturb_config(SEED, vf_chance(&r, 1, 4) ? 0 : 20 + vf_below(&r, 400), 2000 + vf_below(&r, 60000));
   if (vf_chance(&r, 1, 2))
      vf_stall_config(SEED, 40, 1 + vf_below(&r, 3000), 300000);
   vf_dev_cfg d = {.mode = vf_chance(&r, 3, 4) ? VF_DEV_EMU : VF_DEV_PASS,
                   .max_delay_us = 1 + vf_below(&r, 400), .monitor = true, .seed = SEED};
   vf_dev_config(&d);
   comp_open(&C, dir, (uint64_t)(NX + 40) * ESZ, cachemb << 20, qd, 0, 0, 0, 0, false, false);
   R.s = SEED;
   me  = NT; /* main is thread NT of the monitor */
   for (uint32_t e = 0; e < NX; e++) {
      pthread_rwlock_init(&X[e].lk, NULL);
      new_extent(e);
   }
   pthread_barrier_init(&B, NULL, NT + 1);
   pthread_t th[64];
   for (uint32_t i = 0; i < NT; i++)
      pthread_create(&th[i], NULL, worker, (void *)(intptr_t)i);
   for (ROUND = 1; ROUND <= rounds; ROUND++) {
      pthread_barrier_wait(&B);
      pthread_barrier_wait(&B);
      S_rounds++;
      uint64_t x = vf_below(&r, 4);
      if (x < 3) {
         cache_flush(C_CC(&C));
         VF_CHECK(cache_count_dirty(C_CC(&C)) == 0, "dirty pages after a flush: %u",
                  cache_count_dirty(C_CC(&C)));
         check_disk("device after a flush");
      }
      if (x == 1)
         cache_evict(C_CC(&C), TRUE);
      if (x == 2) {
         for (int i = 0; i < 10; i++) {
            uint32_t e = vf_below(&r, NX);
            for (uint32_t p = 0; p < X[e].n; p++) {
               hold k = {e, p, NULL};
               k.h    = cache_get(C_CC(&C), addr_of(e, p), TRUE, PAGE_TYPE_MISC);
               got(&k, "get");
               if (claim(&k)) {
                  lock(&k);
                  write_page(&k);
                  unlock(&k);
                  unclaim(&k);
               }
               unget(&k);
            }
            S_extsync++;
            volatile uint64_t *out = calloc(1, 8);
            cache_extent_sync(C_CC(&C), X[e].addr, (uint64 *)out);
            uint64_t t = vf_now_ns();
            while (*out) {
               cache_cleanup(C_CC(&C));
               VF_CHECK(vf_now_ns() - t < 60000000000ull, "extent sync never completes");
            }
            free((void *)out);
         }
      }
      check_all_reads("read back");
      vf_distinct("state", vf_mix(vclock * 77 + S_reads));
   }
   STOP = 1;
   pthread_barrier_wait(&B);
   for (uint32_t i = 0; i < NT; i++)
      pthread_join(th[i], NULL);
   check_all_reads("read back at the end");
   cache_flush(C_CC(&C));
   check_disk("device after the last flush");
   uint64_t used = allocator_in_use(C_AL(&C));
   comp_close(&C, true);
   /* a new cache over the same device */
   comp_open(&C, dir, (uint64_t)(NX + 40) * ESZ, (2 + vf_below(&r, 8)) << 20, qd, 0, 0, 0, 0, true, false);
   VF_CHECK(allocator_in_use(C_AL(&C)) == used, "extents in use changed from %lu to %lu over a remount",
            used, allocator_in_use(C_AL(&C)));
   check_all_reads("read in a new cache");
   S_remount++;
   comp_close(&C, true);
   vf_stat("page_reads", S_reads);
   vf_stat("page_writes", S_writes);
   vf_stat("claims_refused", S_claimfail);
   vf_stat("async_reads", S_async_io);
   vf_stat("async_hits", S_async_hit);
   vf_stat("async_retries", S_async_retry);
   vf_stat("extents_recycled", S_recycle);
   vf_stat("prefetches", S_prefetch);
   vf_stat("pinned_pages", S_pins);
   vf_stat("page_syncs", S_sync);
   vf_stat("extent_syncs", S_extsync);
   vf_stat("pages_compared_on_device", S_disk);
   vf_stat("nonblocking_gets", S_nb);
   vf_stat("nonblocking_refused", S_nbmiss);
   vf_stat("multi_page_holds", S_multi);
   vf_stat("writers_that_waited", S_waits);
   vf_statmax("readers_of_one_page", S_reader_max);
   vf_stat("rounds", S_rounds);
   vf_sample("seed %lu mode %s threads %u extents %u cache %lu MB: %lu reads %lu writes %lu recycled",
             SEED, mode, NT, NX, cachemb, S_reads, S_writes, S_recycle);
   vf_finish();
   return 0;
}
