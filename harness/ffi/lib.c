/* A library for native modules which logs every call it receives to $CORDY_FFI_LOG:
   module TAB name TAB number of arguments, then one line per argument with its notation. */
#include <stdio.h>
#include <stdlib.h>
#include <stddef.h>
#include "cordy.h"

static void put(FILE *o, cordy_value_t v) {
    switch (v.ty) {
        case TY_NIL: fputs("nil", o); break;
        case TY_BOOL: fputs(v.bool_value ? "true" : "false", o); break;
        case TY_INT: fprintf(o, "%lld", (long long) v.int_value); break;
        case TY_STR: fprintf(o, "'%s'", v.str_value); break;
        case TY_ARRAY:
            fputs("(", o);
            for (size_t i = 0; i < v.vec_value.len; i++) {
                if (i) fputs(", ", o);
                put(o, v.vec_value.ptr[i]);
            }
            fputs(")", o);
            break;
        default: fputs("?", o);
    }
}

static void call(const char *name, cordy_value_t *args, size_t n) {
    const char *path = getenv("CORDY_FFI_LOG");
    FILE *o = path ? fopen(path, "a") : NULL;
    if (!o) return;
    fprintf(o, "%s\t%s\t%zu\n", MODULE, name, n);
    for (size_t i = 0; i < n; i++) {
        put(o, args[i]);
        fputc('\n', o);
    }
    fclose(o);
}

CORDY_EXTERN(fail) { call("fail", args, n); return _ERR("fail"); }
CORDY_EXTERN(nothing) { call("nothing", args, n); return NIL(); }
CORDY_EXTERN(count) { call("count", args, n); return INT((int64_t) n); }
CORDY_EXTERN(sum) {
    call("sum", args, n);
    int64_t s = 0;
    for (size_t i = 0; i < n; i++)
        s += args[i].ty == TY_INT ? args[i].int_value : args[i].ty == TY_BOOL ? args[i].bool_value : 0;
    return INT(s);
}
CORDY_EXTERN(last) { call("last", args, n); if (!n) return NIL(); return args[n - 1]; }
CORDY_EXTERN(pack) {
    call("pack", args, n);
    cordy_value_t v = VEC(n);
    for (size_t i = 0; i < n; i++) v.vec_value.ptr[i] = args[i];
    v.vec_value.len = n;
    return v;
}
