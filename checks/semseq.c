/* C04: semaphore arithmetic for every initial value and count */
#include "h.h"
static sem_t s, e0;
void vx_setup(void) {
  attach(1); __vx_set_tid(1);
  unsigned init = __vx_nondet("init"); int v = -1; 
  int r = sem_init(&s, 0, init);
  if (init > (unsigned)SEM_VALUE_MAX) { CHK(r, -1, "sem_init accepts a value above SEM_VALUE_MAX"); CHK(errno, EINVAL, "sem_init errno"); VX_COVER("init rejected"); return; }
  CHK(r, 0, "sem_init failed");
  CHK(sem_getvalue(&s, &v), 0, "getvalue"); VX_ASSERT(v == (int)init, "initial value not reported");
  long long units = init; int n = (int)__vx_nondet("count");
  r = sem_post_multiple(&s, n);
  if (n <= 0) { CHK(r, -1, "sem_post_multiple accepts a count that is not positive"); CHK(errno, EINVAL, "sem_post_multiple errno"); VX_COVER("count rejected"); }
  else if (units + n > SEM_VALUE_MAX) { CHK(r, -1, "post_multiple beyond SEM_VALUE_MAX must fail"); CHK(errno, ERANGE, "post_multiple errno must be ERANGE"); VX_COVER("post_multiple overflow"); }
  else { CHK(r, 0, "sem_post_multiple failed"); units += n; VX_COVER("post_multiple done"); }
  CHK(sem_getvalue(&s, &v), 0, "getvalue"); VX_ASSERT(v == units, "post_multiple changed the value wrongly");
  r = sem_post(&s);
  if (units + 1 > SEM_VALUE_MAX) { CHK(r, -1, "post beyond SEM_VALUE_MAX must fail"); CHK(errno, ERANGE, "post errno must be ERANGE"); VX_COVER("post overflow"); }
  else { CHK(r, 0, "sem_post failed"); units++; }
  CHK(sem_getvalue(&s, &v), 0, "getvalue"); VX_ASSERT(v == units, "post changed the value wrongly");
  for (int i = 0; i < 2; i++) { r = sem_trywait(&s); if (units > 0) { CHK(r, 0, "trywait with units available failed"); units--; } else { CHK(r, -1, "trywait without units succeeded"); CHK(errno, EAGAIN, "trywait errno"); } 
    CHK(sem_getvalue(&s, &v), 0, "getvalue"); VX_ASSERT(v == units, "trywait changed the value wrongly"); }
  if (units > 0) { CHK(sem_wait(&s), 0, "sem_wait with units available"); units--; struct timespec p = abs_after(-1); if (units > 0) { CHK(sem_timedwait(&s, &p), 0, "sem_timedwait with units available"); units--; } }
  else { struct timespec p = abs_after(-1); CHK(sem_timedwait(&s, &p), -1, "timedwait on an empty semaphore"); CHK(errno, ETIMEDOUT, "timedwait errno"); }
  CHK(sem_getvalue(&s, &v), 0, "getvalue"); VX_ASSERT(v == units, "waits changed the value wrongly");
  CHK(sem_destroy(&s), 0, "destroy"); 
  CHK(sem_init(&e0, 1, 0), -1, "process-shared semaphore accepted"); CHK(errno, EPERM, "process-shared errno");
}
