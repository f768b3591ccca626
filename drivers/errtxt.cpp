/* system errors and exceptions */
#include "vd.h"
#include <string>
#include "syserror.h"
using namespace putils;
static void vd_begin() { vd_int(); }
static void vd_finish() {}
static void tell(int code, const std::string &t, int no, int n) { vd_beg(); vd_ki("code", code); vd_kb("text", t.data(), t.size()); vd_ki("no", no); vd_ks("std", strerror(n)); vd_end(); }
static void vd_op(const char *op) {
    int n = 0; std::string p, m;
    if (!vd_is(op, "msg") && !vd_is(op, "intr") && !vd_is(op, "died")) { n = vd_int(); char *q = vd_str(); p = q; free(q); }
    if (vd_is(op, "excf") || vd_is(op, "msg") || vd_is(op, "intr") || vd_is(op, "died")) { char *q = vd_str(); m = q; free(q); }
    if (vd_is(op, "err")) { syserror e = p.empty() ? geterror(n) : geterror(n, p.c_str()); tell(e.err, e.errstr, 0, n); }
    else if (vd_is(op, "made")) { syserror e(n, p.c_str()), g(n, p); tell(e.err == g.err ? e.err : -99, e.errstr == g.errstr ? e.errstr : "differs", 0, n); }
    else if (vd_is(op, "last")) { errno = n; int no = geterrno(); syserror e = p.empty() ? geterror() : geterror(p); tell(e.err, e.errstr, no, n); }
    else try {
        if (vd_is(op, "exc")) throw sys_exception(geterror(n, p));
        if (vd_is(op, "excf")) throw sys_exception(geterror(n, p), "%s", m.c_str());
        if (vd_is(op, "msg")) throw sys_exception("%s", m.c_str());
        if (vd_is(op, "intr")) throw syscall_interrupted("%s", m.c_str());
        throw lock_owner_died(m);
    }
    catch (const sys_exception &x) { const std::exception &y = x; tell(x.errcode(), y.what(), 0, n); }
    catch (const syscall_interrupted &x) { const std::exception &y = x; tell(x.errcode(), y.what(), 0, n); }
}
