#include "rwlock.h"
#include <stddef.h>
size_t cut_rw_size(void) { return sizeof(struct rwlock); }
void cut_rw_init(struct rwlock* l) { rwlock_init(l); }
void cut_rw_destroy(struct rwlock* l) { rwlock_destroy(l); }
void cut_r_lock(struct rwlock* l) { rwlock_r_lock(l); }
void cut_r_unlock(struct rwlock* l) { rwlock_r_unlock(l); }
void cut_w_lock(struct rwlock* l) { rwlock_w_lock(l); }
void cut_w_unlock(struct rwlock* l) { rwlock_w_unlock(l); }
