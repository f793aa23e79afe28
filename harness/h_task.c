/*
 * Task system monitor (C18).  Threads come and go, enqueue tasks that enqueue
 * further tasks, help out and wait for quiescence; the monitor counts the runs
 * of every task, tracks who has which thread identifier and scratch space, and
 * compares what quiescence promised with what was accepted before.
 */
#include "comp.h"
static comp     C;
static uint64_t SEED, SCR;
static uint32_t NT, NBG[3], OPS;
#define MAXT 96
#define MAXTASK 2000000
static volatile uint8_t  *runs;   /* per task */
static volatile uint64_t  next_task, accepted, executed;
static volatile int32_t   tid_used[MAX_THREADS + 1];
static volatile int32_t   busy[MAX_THREADS + 1]; /* a task runs on this scratch */
static void *volatile     scr_of[MAX_THREADS + 1];
static volatile int32_t   maybe_reg;
static volatile uint64_t  reg_started;
static uint64_t S_run, S_child, S_bg, S_fg, S_reg, S_refused, S_quiet, S_quiet_busy, S_cycles, S_order, S_help, S_full;
static volatile int       phase_quiet;
typedef struct targ {
   uint32_t no, depth;
   uint64_t seed;
   int      type;
} targ;
static __thread bool helper;

static void body(void *arg, void *scratch);
static void
submit(vf_rng *r, uint32_t depth)
{
   targ *t  = malloc(sizeof(*t));
   t->no    = __sync_fetch_and_add(&next_task, 1);
   VF_ENV(t->no < MAXTASK, "too many tasks");
   t->depth = depth;
   t->seed  = vf_rand(r);
   t->type  = vf_chance(r, 1, 3) ? TASK_TYPE_MEMTABLE : TASK_TYPE_NORMAL;
   platform_status rc = task_enqueue(C.ts, t->type, body, t, vf_chance(r, 1, 4));
   VF_CHECK(SUCCESS(rc), "task_enqueue");
   __sync_fetch_and_add(&accepted, 1);
}
static void
body(void *arg, void *scratch)
{
   targ    *t   = arg;
   uint64_t tid = platform_get_tid();
   VF_CHECK(tid < MAX_THREADS, "task %u runs on a thread that is not registered", t->no);
   VF_CHECK(scratch == task_system_get_thread_scratch(C.ts, tid), "task %u runs with the scratch space of another thread", t->no);
   if (SCR) {
      VF_CHECK(scratch != NULL, "task %u runs without scratch space", t->no);
      VF_CHECK(__sync_fetch_and_add(&busy[tid], 1) == 0, "two tasks use the scratch space of thread %lu at a time", tid);
      memset(scratch, (uint8_t)t->no, SCR);
   }
   uint8_t n = __sync_add_and_fetch(&runs[t->no], 1);
   VF_CHECK(n == 1, "task %u runs for the %u. time", t->no, n);
   VF_CHECK(!phase_quiet, "task %u runs although the system was quiescent", t->no);
   vf_rng r = {t->seed};
   vf_pause(&r);
   uint32_t kids = t->depth ? vf_below(&r, 3) : 0;
   for (uint32_t k = 0; k < kids; k++) {
      submit(&r, t->depth - 1);
      __sync_fetch_and_add(&S_child, 1);
   }
   if (vf_chance(&r, 1, 20))
      usleep(vf_below(&r, 300));
   if (SCR) {
      for (uint64_t i = 0; i < SCR; i += 61)
         VF_CHECK(((uint8_t *)scratch)[i] == (uint8_t)t->no, "scratch space of thread %lu changed under task %u", tid, t->no);
      VF_CHECK(__sync_fetch_and_sub(&busy[tid], 1) == 1, "scratch space of thread %lu", tid);
   }
   __sync_fetch_and_add(helper ? &S_fg : &S_bg, 1);
   __sync_fetch_and_add(&executed, 1);
   free(t);
}
static bool
enter(void)
{
   uint64_t started = __sync_fetch_and_add(&reg_started, 0);
   int32_t  before  = __sync_add_and_fetch(&maybe_reg, 1);
   __sync_add_and_fetch(&reg_started, 1);
   platform_status rc = task_register_this_thread(C.ts, SCR);
   if (!SUCCESS(rc)) {
      uint64_t others = reg_started - started - 1;
      VF_CHECK(before + others > MAX_THREADS, "registration refused with at most %lu of %u identifiers in use",
               before + others - 1, MAX_THREADS);
      __sync_fetch_and_sub(&maybe_reg, 1);
      __sync_fetch_and_add(&S_refused, 1);
      return false;
   }
   uint64_t tid = platform_get_tid();
   VF_CHECK(tid < MAX_THREADS, "thread identifier %lu", tid);
   VF_CHECK(__sync_fetch_and_add(&tid_used[tid], 1) == 0, "two threads have identifier %lu", tid);
   uint8_t *s = task_system_get_thread_scratch(C.ts, tid);
   if (SCR) {
      VF_CHECK(s != NULL, "no scratch space");
      for (uint64_t i = 0; i < SCR; i++)
         VF_CHECK(s[i] == 0, "scratch space of a new thread holds old data");
      memset(s, 0xaa, SCR);
   }
   VF_CHECK(task_get_max_tid(C.ts) > tid, "identifier %lu is not below the maximum %lu", tid, task_get_max_tid(C.ts));
   __sync_fetch_and_add(&S_reg, 1);
   return true;
}
static void
leave(void)
{
   uint64_t tid = platform_get_tid();
   VF_CHECK(__sync_fetch_and_sub(&tid_used[tid], 1) == 1, "identifier %lu changed hands", tid);
   task_deregister_this_thread(C.ts);
   VF_CHECK(platform_get_tid() == INVALID_TID, "identifier %lu after deregistration", platform_get_tid());
   __sync_fetch_and_sub(&maybe_reg, 1);
}
static pthread_barrier_t B;
static void *
worker(void *a)
{
   int    me = (int)(intptr_t)a;
   vf_rng r  = {vf_mix(SEED * 1009 + me)};
   helper    = true;
   bool in   = false;
   pthread_barrier_wait(&B);
   for (uint32_t i = 0; i < OPS; i++) {
      if (!in) {
         in = enter();
         if (!in) {
            vf_pause(&r);
            continue;
         }
      }
      uint32_t x = vf_below(&r, 100);
      if (x < 40)
         submit(&r, vf_chance(&r, 1, 4) ? 1 + vf_below(&r, 2) : 0);
      else if (x < 60) {
         platform_status rc = task_perform_one_if_needed(C.ts, vf_chance(&r, 1, 2) ? 0 : 100 + vf_below(&r, 200));
         VF_CHECK(SUCCESS(rc) || STATUS_IS_EQ(rc, STATUS_TIMEDOUT), "task_perform_one");
         if (SUCCESS(rc))
            __sync_fetch_and_add(&S_help, 1);
      } else if (x < 64)
         task_perform_all(C.ts);
      else if (x < 72) {
         uint64_t acc = accepted;
         __sync_synchronize();
         if (task_system_is_quiescent(C.ts)) {
            VF_CHECK(executed >= acc, "reported quiescent with %lu of %lu tasks run", executed, acc);
            __sync_fetch_and_add(&S_quiet_busy, 1);
         }
      } else if (x < 74) {
         uint64_t acc = accepted;
         __sync_synchronize();
         platform_status rc = task_perform_until_quiescent(C.ts);
         VF_CHECK(SUCCESS(rc), "task_perform_until_quiescent");
         VF_CHECK(executed >= acc, "until quiescent: %lu of %lu tasks run", executed, acc);
         __sync_fetch_and_add(&S_quiet_busy, 1);
      } else if (x < 85) {
         leave();
         in = false;
      } else
         vf_pause(&r);
   }
   if (in)
      leave();
   pthread_barrier_wait(&B);
   return NULL;
}
/* order: no background threads, one thread */
static uint32_t order[512], norder;
static void
note(void *a, void *s)
{
   order[norder++] = (uint32_t)(uintptr_t)a;
}
static void
check_order(vf_rng *r)
{
   uint32_t want[1024], lo = 512, hi = 512, n = 1 + vf_below(r, 200);
   norder = 0;
   for (uint32_t i = 0; i < n; i++) {
      bool head = vf_chance(r, 1, 3);
      platform_status rc = task_enqueue(C.ts, TASK_TYPE_NORMAL, note, (void *)(uintptr_t)i, head);
      VF_CHECK(SUCCESS(rc), "task_enqueue");
      if (head)
         want[--lo] = i;
      else
         want[hi++] = i;
      if (vf_chance(r, 1, 8)) {
         uint32_t at = norder;
         VF_CHECK(SUCCESS(task_perform_one(C.ts)), "a waiting task was not performed");
         VF_CHECK(norder == at + 1 && order[at] == want[lo], "task %u ran, the next was %u", order[at], want[lo]);
         lo++;
      }
   }
   uint32_t at = norder;
   VF_CHECK(!task_system_is_quiescent(C.ts) || lo == hi, "quiescent with %u waiting tasks", hi - lo);
   task_perform_all(C.ts);
   VF_CHECK(norder - at == hi - lo, "%u tasks ran of %u", norder - at, hi - lo);
   for (uint32_t i = 0; i < hi - lo; i++)
      VF_CHECK(order[at + i] == want[lo + i], "task %u ran in place of %u", order[at + i], want[lo + i]);
   VF_CHECK(task_system_is_quiescent(C.ts), "not quiescent with nothing to do");
   S_order += n;
}
static volatile int hold_go;
static void *
holder(void *a)
{
   bool in = enter();
   pthread_barrier_wait(&B);
   while (!hold_go)
      usleep(500);
   if (in)
      leave();
   return (void *)(intptr_t)in;
}
static uint32_t
nthreads(void)
{
   char  l[200];
   FILE *f = fopen("/proc/self/status", "r");
   int   n = 0;
   while (fgets(l, sizeof(l), f))
      if (sscanf(l, "Threads: %d", &n) == 1)
         break;
   fclose(f);
   return n;
}
int
main(int argc, char **argv)
{
   SEED            = vf_arg_u64(argc, argv, "seed", 1);
   const char *dir = vf_arg_str(argc, argv, "dir", ".");
   OPS             = vf_arg_u64(argc, argv, "ops", 1200);
   vf_rng r        = {vf_mix(SEED)};
   uint32_t cycles = 1 + vf_below(&r, 4);
   runs            = calloc(MAXTASK, 1);
   comp_quiet();
   helper = true;
   for (uint32_t c = 0; c < cycles; c++) {
      NBG[1] = vf_chance(&r, 1, 2) ? 0 : 1 + vf_below(&r, 4);
      NBG[2] = vf_chance(&r, 1, 3) ? 0 : 1 + vf_below(&r, 8);
      if (vf_chance(&r, 1, 10))
         NBG[2] = 63 - NBG[1] - vf_below(&r, 3);
      SCR    = vf_chance(&r, 1, 6) ? 0 : 1 + vf_below(&r, 9000);
      NT     = vf_chance(&r, 1, 5) ? 60 + vf_below(&r, 30) : 1 + vf_below(&r, 16);
      uint32_t ops = NT > 16 ? OPS / 6 : OPS;
      uint32_t opsave = OPS;
      OPS = ops;
      bool shmem = vf_chance(&r, 1, 4);
      vf_perturb_config(SEED + c, 50 + vf_below(&r, 2000), 30000);
      VF_CHECK(platform_get_tid() == INVALID_TID, "identifier %lu before registration", platform_get_tid());
      uint32_t t0 = nthreads();
      comp_open(&C, dir, 64 * ESZ, 0, 64, NBG[1], NBG[2], SCR, 0, c > 0, shmem);
      VF_CHECK(platform_get_tid() == 0, "the creating thread has identifier %lu", platform_get_tid());
      memset((void *)tid_used, 0, sizeof(tid_used));
      tid_used[0]  = 1;
      maybe_reg    = 1 + NBG[1] + NBG[2];
      phase_quiet  = 0;
      if (NBG[1] + NBG[2] == 0)
         for (int k = 0; k < 3; k++)
            check_order(&r);
      pthread_barrier_init(&B, NULL, NT + 1);
      pthread_t th[MAXT];
      for (uint32_t i = 0; i < NT; i++)
         pthread_create(&th[i], NULL, worker, (void *)(intptr_t)i);
      pthread_barrier_wait(&B);
      pthread_barrier_wait(&B);
      for (uint32_t i = 0; i < NT; i++)
         pthread_join(th[i], NULL);
      platform_status rc = task_perform_until_quiescent(C.ts);
      VF_CHECK(SUCCESS(rc), "task_perform_until_quiescent");
      VF_CHECK(executed == accepted, "quiescent with %lu of %lu tasks run", executed, accepted);
      phase_quiet = 1;
      S_quiet++;
      usleep(vf_below(&r, 3000));
      for (uint64_t i = 0; i < next_task; i++)
         VF_CHECK(runs[i] == 1, "task %lu ran %u times", i, runs[i]);
      for (uint32_t i = 1; i < MAX_THREADS; i++)
         VF_CHECK(tid_used[i] == 0, "identifier %u is still in use", i);
      if (vf_chance(&r, 1, 2)) {
         /* every identifier can be in use at once, and not one more */
         uint32_t spare = MAX_THREADS - 1 - NBG[1] - NBG[2], n = spare + vf_below(&r, 4);
         hold_go = 0;
         pthread_barrier_destroy(&B);
         pthread_barrier_init(&B, NULL, n + 1);
         pthread_t hh[MAX_THREADS + 8];
         for (uint32_t i = 0; i < n; i++)
            pthread_create(&hh[i], NULL, holder, NULL);
         pthread_barrier_wait(&B);
         hold_go      = 1;
         uint32_t in = 0;
         for (uint32_t i = 0; i < n; i++) {
            void *v;
            pthread_join(hh[i], &v);
            in += v != NULL;
         }
         VF_CHECK(in == (n < spare ? n : spare), "%u of %u threads could register, %u identifiers were free", in, n, spare);
         S_full++;
      }
      pthread_barrier_destroy(&B);
      VF_CHECK(executed == accepted, "tasks appeared from nowhere");
      comp_close(&C, true);
      VF_CHECK(platform_get_tid() == INVALID_TID, "identifier %lu after the end", platform_get_tid());
      uint32_t t1 = nthreads();
      VF_CHECK(t1 <= t0, "%u threads, %u before", t1, t0);
      vf_distinct("cycles", vf_mix(accepted) ^ S_reg);
      OPS = opsave;
      S_cycles++;
   }
   vf_stat("tasks", executed);
   vf_stat("tasks_enqueued_by_tasks", S_child);
   vf_stat("tasks_run_in_background", S_bg);
   vf_stat("tasks_run_by_helpers", S_fg);
   vf_stat("registrations", S_reg);
   vf_stat("registrations_refused_when_full", S_refused);
   vf_stat("quiescence_under_load", S_quiet_busy);
   vf_stat("tasks_in_order", S_order);
   vf_stat("all_identifiers_in_use", S_full);
   vf_stat("systems_created", S_cycles);
   vf_sample("seed %lu cycles %lu tasks %lu registrations %lu refused %lu", SEED, S_cycles, executed, S_reg, S_refused);
   vf_finish();
   return 0;
}
