/* Allocator put under the library by the linker (--wrap): every block ends at an inaccessible page, freed blocks stay
   inaccessible until the next reset, allocations can be made to fail, and the content of freed blocks is recorded.
   Addresses are the same after every reset. */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
#define PG 4096UL
#define SPACE (1UL << 33)
#define MAXB 400000
struct rec { uint8_t *p; size_t n; size_t map; int live; };
static struct rec R[MAXB];
static uint8_t *base, *cur;
static int nrec;
int vp_count, vp_live, vp_bad, vp_watch, vp_nfreed;
int vp_fail_mode, vp_fail_at; const uint8_t *vp_fail_mask; int vp_fail_len;
static uint8_t snap[1 << 20]; static size_t snapn;
struct fr { uint32_t off, n; int idx; };
static struct fr F[4096];
void vp_reset(void)
{
	if (!base) { base = mmap((void *)0x610000000000UL, SPACE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); cur = base; }
	else { mmap(base, cur - base + PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0); cur = base; }
	nrec = vp_count = vp_live = vp_bad = vp_watch = vp_nfreed = 0; snapn = 0; vp_fail_mode = 0;
}
int vp_room(void) { return base && (size_t)(cur - base) < SPACE / 2 && nrec < 20000; }
static int fails(void)
{
	int k = vp_count++;
	if (vp_fail_mode == 1) return k == vp_fail_at;
	if (vp_fail_mode == 2) return k >= vp_fail_at;
	if (vp_fail_mode == 3) return k < vp_fail_len ? vp_fail_mask[k] : 0;
	return 0;
}
void *__wrap_malloc(size_t n)
{
	size_t m; uint8_t *p;
	if (!base) vp_reset();
	if (fails()) return NULL;
	if (n > (1UL << 30) || nrec >= MAXB) return NULL;
	m = (n + 16 + PG - 1) / PG * PG;
	if ((size_t)(cur - base) + m + 2 * PG > SPACE) return NULL;
	if (mprotect(cur, m, PROT_READ | PROT_WRITE)) return NULL;
	p = cur + m - (n + 15) / 16 * 16;
	memset(cur, 0xDB, m);
	R[nrec].p = p; R[nrec].n = n; R[nrec].map = m; R[nrec].live = 1; nrec++;
	cur += m + PG; vp_live++;
	return p;
}
void *__wrap_calloc(size_t a, size_t b)
{
	void *p = __wrap_malloc(a * b);
	if (p) memset(p, 0, a * b);
	return p;
}
void __wrap_free(void *q)
{
	int i; uint8_t *p = q, *e, *m;
	if (!p) return;
	for (i = nrec - 1; i >= 0; i--) if (R[i].p == p) break;
	if (i < 0) { vp_bad = 1; return; }
	if (!R[i].live) { vp_bad = 2; return; }
	m = p + (R[i].n + 15) / 16 * 16 - R[i].map;
	for (e = p + R[i].n; e < m + R[i].map; e++) if (*e != 0xDB) vp_bad = 3;
	for (e = p - 1; e >= m && e >= p - 64; e--) if (*e != 0xDB) vp_bad = 4;
	if (vp_watch && vp_nfreed < 4096 && snapn + R[i].n <= sizeof snap) {
		memcpy(snap + snapn, p, R[i].n); F[vp_nfreed].off = snapn; F[vp_nfreed].n = R[i].n; F[vp_nfreed].idx = i; vp_nfreed++; snapn += R[i].n;
	}
	R[i].live = 0; vp_live--;
	madvise(m, R[i].map, MADV_DONTNEED);
	mprotect(m, R[i].map, PROT_NONE);
}
void *__wrap_realloc(void *q, size_t n)
{
	void *r; int i;
	if (!q) return __wrap_malloc(n);
	for (i = nrec - 1; i >= 0; i--) if (R[i].p == q) break;
	r = __wrap_malloc(n);
	if (r && i >= 0) { memcpy(r, q, R[i].n < n ? R[i].n : n); __wrap_free(q); }
	return r;
}
const uint8_t *vp_freed(int k, int *n) { *n = F[k].n; return snap + F[k].off; }
int vp_blocks(void) { return nrec; }
int vp_block_live(int i) { return R[i].live; }
uint8_t *vp_block(int i, int *n) { *n = (int)R[i].n; return R[i].p; }
