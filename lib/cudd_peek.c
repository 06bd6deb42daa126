/* Views of the manager that the public interface does not give: total references, and the step at which the next check for an interruption happens. */
#include "util.h"
#include "cuddInt.h"
static void sub(DdManager *dd, DdSubtable *t, long *live, long *refs) { for (int i = 0; i < (int)t->slots; i++) for (DdNode *f = t->nodelist[i]; f && f != &dd->sentinel; f = f->next) { (*live)++; if (f->ref != DD_MAXREF) *refs += f->ref; } }
void verif_snap(DdManager *dd, long *live, long *refs) { *live = *refs = 0; for (int i = 0; i < dd->size; i++) sub(dd, &dd->subtables[i], live, refs); for (int i = 0; i < dd->sizeZ; i++) sub(dd, &dd->subtableZ[i], live, refs); sub(dd, &dd->constants, live, refs); }
void verif_strike(DdManager *dd, long k) { dd->cacheMisses = CUDD_CHECK_MASK + 1 - (k % CUDD_CHECK_MASK); }
void verif_flush(DdManager *dd) { cuddCacheFlush(dd); }
double verif_misses(DdManager *dd) { return dd->cacheMisses; }
/* outstanding blocks of the library (the calls are wrapped when linking) */
long verif_blocks, verif_deny, verif_allocs; static int deny(void) { verif_allocs++; return verif_deny > 0 && --verif_deny == 0; }
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { if (deny()) return 0; void *p = __real_malloc(n); if (p) verif_blocks++; return p; }
void *__wrap_calloc(size_t n, size_t m) { if (deny()) return 0; void *p = __real_calloc(n, m); if (p) verif_blocks++; return p; }
void *__wrap_realloc(void *q, size_t n) { if (deny()) return 0; void *p = __real_realloc(q, n); if (p && !q) verif_blocks++; return p; }
void __wrap_free(void *p) { if (p) verif_blocks--; __real_free(p); }
