#include "vd.h"
#include "utils/strutils.h"
static void vd_begin(void) { vd_int(); }
template <typename T> static void typed(const char *s, int b) {
    auto p = putils::strtoi<T>(std::string(s), b);
    vd_beg(); vd_ki("r", p.second); vd_k64("v", (uint64_t)p.first); vd_end();
}
static void vd_op(const char *op) {
    char *s = vd_str(); int b = vd_int();
    uint64_t v = 0x1234;
    if (vd_is(op, "u64")) {
        const char *end = 0;
        int r = strtou64(s, &end, b, &v);
        vd_beg(); vd_ki("r", r); vd_k64("v", v); vd_ki("end", end ? end - s : -1); vd_end();
    } else if (vd_is(op, "size")) {
        int r = strtosize(s, b, &v);
        vd_beg(); vd_ki("r", r); vd_k64("v", v); vd_end();
    } else {
        int bits = vd_int(), sg = vd_int();
        if (bits == 8) { if (sg) typed<int8_t>(s, b); else typed<uint8_t>(s, b); }
        else if (bits == 16) { if (sg) typed<int16_t>(s, b); else typed<uint16_t>(s, b); }
        else if (bits == 32) { if (sg) typed<int32_t>(s, b); else typed<uint32_t>(s, b); }
        else { if (sg) typed<int64_t>(s, b); else typed<uint64_t>(s, b); }
    }
    free(s);
}
static void vd_finish(void) { }
