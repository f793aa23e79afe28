/* Set-up of the lower layers (heap, io, tasks, allocator, cache) for harnesses
 * that drive components directly. */
#ifndef VF_COMP_H
#define VF_COMP_H
#include "platform.h"
#include "io.h"
#include "task.h"
#include "allocator.h"
#include "rc_allocator.h"
#include "cache.h"
#include "clockcache.h"
#include "data_internal.h"
#include "rt.h"
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sched.h>
#include <pthread.h>
#include <sys/stat.h>
#undef fprintf
#define PSZ 4096ull
#define ESZ (128ull * 1024)
#define PPE 32

typedef struct comp {
   io_config          io_cfg;
   allocator_config   al_cfg;
   clockcache_config  cc_cfg;
   task_system_config ts_cfg;
   platform_heap_id   hid;
   platform_io_handle io;
   task_system       *ts;
   rc_allocator       al;
   clockcache         ccache;
   char               file[512];
   bool               have_cache;
} comp;

#define C_CC(c) ((cache *)&(c)->ccache)
#define C_AL(c) ((allocator *)&(c)->al)

static void
comp_open(comp *c, const char *dir, uint64_t disk, uint64_t cachesz, uint64_t qdepth,
          uint64_t nbg_mt, uint64_t nbg, uint64_t scratch, int ioflags, bool mount, bool shmem)
{
   memset(c, 0, sizeof(*c));
   snprintf(c->file, sizeof(c->file), "%s/db", dir);
   io_config_init(&c->io_cfg, PSZ, ESZ, ioflags | O_RDWR | O_CREAT, 0644, qdepth, c->file);
   allocator_config_init(&c->al_cfg, &c->io_cfg, disk);
   if (cachesz)
      clockcache_config_init(&c->cc_cfg, &c->io_cfg, cachesz, "", FALSE);
   uint64 nb[NUM_TASK_TYPES] = {0};
   nb[TASK_TYPE_MEMTABLE] = nbg_mt;
   nb[TASK_TYPE_NORMAL]   = nbg;
   platform_status rc = task_system_config_init(&c->ts_cfg, TRUE, nb, scratch);
   VF_ENV(SUCCESS(rc), "task_system_config_init");
   rc = platform_heap_create(platform_get_module_id(), 256 * MiB, shmem, &c->hid);
   VF_ENV(SUCCESS(rc), "platform_heap_create");
   rc = io_handle_init(&c->io, &c->io_cfg, c->hid);
   VF_ENV(SUCCESS(rc), "io_handle_init");
   rc = task_system_create(c->hid, &c->io, &c->ts, &c->ts_cfg);
   VF_ENV(SUCCESS(rc), "task_system_create");
   if (mount)
      rc = rc_allocator_mount(&c->al, &c->al_cfg, (io_handle *)&c->io, c->hid,
                              platform_get_module_id());
   else
      rc = rc_allocator_init(&c->al, &c->al_cfg, (io_handle *)&c->io, c->hid,
                             platform_get_module_id());
   VF_ENV(SUCCESS(rc), "rc_allocator %s", mount ? "mount" : "init");
   if (!mount) {
      uint64 a;
      rc = allocator_alloc_super_addr(C_AL(c), 1, &a);
      VF_ENV(SUCCESS(rc), "alloc_super_addr");
   }
   if (cachesz) {
      rc = clockcache_init(&c->ccache, &c->cc_cfg, (io_handle *)&c->io, C_AL(c), "vf",
                           c->hid, platform_get_module_id());
      VF_ENV(SUCCESS(rc), "clockcache_init");
      c->have_cache = true;
   }
}

static void
comp_close(comp *c, bool unmount)
{
   if (c->have_cache)
      clockcache_deinit(&c->ccache);
   if (unmount)
      rc_allocator_unmount(&c->al);
   else
      rc_allocator_deinit(&c->al);
   task_system_destroy(c->hid, &c->ts);
   io_handle_deinit(&c->io);
   platform_heap_destroy(&c->hid);
}

static inline void
vf_pause(vf_rng *r)
{
   switch (vf_below(r, 6)) {
      case 0: sched_yield(); break;
      case 1: usleep(vf_below(r, 120)); break;
      case 2: for (volatile int i = 0; i < 300; i++) ; break;
      default: break;
   }
}

/* Silence the library's own log output. */
static inline void
comp_quiet(void)
{
   FILE *n = fopen("/dev/null", "w");
   platform_set_log_streams(n, n);
}
#endif
