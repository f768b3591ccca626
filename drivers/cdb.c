/* constant databases */
#include "vd.h"
#include <unistd.h>
#include <sys/types.h>
#include <sys/mman.h>
#include "../src/cdb_reader.h"
extern uint64_t fasthash64_real(const void *, size_t, uint64_t);
static int own;
/* own: the hash of a key is what it begins with */
uint64_t fasthash64(const void *p, size_t n, uint64_t seed) {
    if (!own) return fasthash64_real(p, n, seed);
    uint8_t b[4] = {0}; memcpy(b, p, n < 4 ? n : 4); return b[0] | b[1] << 8 | b[2] << 16 | (uint64_t)b[3] << 24;
}
static CDB db; static int open_; static size_t fsz;
static void vd_begin(void) {
    own = vd_int(); uint8_t *f = vd_bytes(&fsz, 0); FILE *o = fopen("t.cdb", "w"); fwrite(f, 1, fsz, o); fclose(o); free(f); open_ = 0;
}
static void shut(void) { if (open_) { munmap(db.mmap, db.size); close(db.fd); } open_ = 0; }
static void vd_finish(void) { shut(); unlink("t.cdb"); }
static void vd_op(const char *op) {
    if (vd_is(op, "open")) { shut(); memset(&db, 0xcd, sizeof db); int r = cdb_read_init(&db, "t.cdb"); open_ = r == 0; vd_beg(); vd_ki("r", r); vd_end(); return; }
    size_t kn; uint8_t *k = vd_bytes(&kn, 0); void *p = 0; ssize_t r = -99;
    if (open_) r = cdb_find(&db, &p, k, kn);
    if (r > (1 << 28)) r = -98; /* larger than any file here */
    int in = r < 0 || ((uint8_t *)p >= db.mmap && (uint8_t *)p + r <= db.mmap + fsz);
    vd_beg(); vd_ki("r", in ? r : -97); vd_kb("o", p, r >= 0 && in ? r : 0); vd_end(); free(k);
}
