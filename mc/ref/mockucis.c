/* A UCIS library that records every call it receives.  The prototypes and structures are those of the UCIS 1.0 C API. */
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef void *ucisT, *ucisScopeT, *ucisObjT, *ucisFileHandleT, *ucisHistoryNodeT, *ucisIteratorT;
typedef uint64_t ucisScopeTypeT, ucisCoverTypeT, ucisScopeMaskTypeT;
typedef int ucisSourceT, ucisFlagsT, ucisHistoryNodeKindT, ucisIntPropertyEnumT, ucisStringPropertyEnumT;
typedef struct { ucisFileHandleT filehandle; int line; int token; } ucisSourceInfoT;
typedef union { uint64_t int64; uint32_t int32; unsigned char *bytevector; } ucisCoverDataValueT;
typedef struct { ucisCoverTypeT type; ucisFlagsT flags; ucisCoverDataValueT data; int goal; int weight; int limit; int bitlen; } ucisCoverDataT;
typedef struct {
    unsigned teststatus; double simtime; const char *timeunit; const char *runcwd; double cputime; const char *seed; const char *cmd; const char *args; int compulsory;
    const char *date; const char *username; double cost; const char *toolcategory;
} ucisTestDataT;
typedef struct { int msgno; int severity; const char *msgstr; } ucisErrorT;
typedef void (*ucis_ErrorHandler)(void *userdata, ucisErrorT *errdata);

/* ---- the record */
static char *rec; static size_t used, room;
static void put(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    if (room - used < 65536) { room = room * 2 + 1048576; rec = realloc(rec, room); }
    used += vsnprintf(rec + used, 60000, fmt, ap);
    va_end(ap);
}
static void s_(const char *s) {
    if (!s) { put("N\x1f"); return; }
    put("s");
    for (; *s; s++) put("%02x", (unsigned char)*s);
    put("\x1f");
}
static void b_(const unsigned char *s, int n) {
    if (!s) { put("N\x1f"); return; }
    put("s");
    while (n-- > 0) put("%02x", *s++);
    put("\x1f");
}
static void p_(const void *p) { if (p) put("p%llx\x1f", (unsigned long long)(uintptr_t)p); else put("N\x1f"); }
static void i_(long long i) { put("i%lld\x1f", i); }
static void u_(unsigned long long i) { put("i%llu\x1f", i); }
static void d_(double d) { put("d%a\x1f", d); }
static void src_(const ucisSourceInfoT *s) {
    if (!s) { put("N\x1f"); return; }
    put("(\x1f"); p_(s->filehandle); i_(s->line); i_(s->token); put(")\x1f");
}
static void f_(const char *n) { put("%s\x1f", n); }
static void end(void) { put("\x1e"); }

/* ---- objects */
typedef struct { int kind; int parent; ucisScopeTypeT type; char *a; char *b; int has_src; ucisSourceInfoT src; ucisTestDataT td; int has_td; int db; int hkind; int covers; } obj;
static obj *objs; static int nobj, capobj;
static int fail_at, creations;
enum { DB = 1, SCOPE, HIST, FILEH, ITER };
#define STEP 0x100000010ULL
#define BASE 0x7a1000000000ULL
static char *dup(const char *s) { return s ? strdup(s) : NULL; }
static void *H(int n) { return (void *)(uintptr_t)(BASE + STEP * (unsigned long long)n); }
static int N(const void *p) {
    unsigned long long v = (unsigned long long)(uintptr_t)p;
    if (v < BASE || (v - BASE) % STEP) return -1;
    v = (v - BASE) / STEP;
    return v < (unsigned long long)nobj ? (int)v : -1;
}
static int mk(int kind, void *db, void *parent) {
    if (++creations == fail_at) return -1;
    if (nobj == capobj) { capobj = capobj * 2 + 64; objs = realloc(objs, capobj * sizeof *objs); }
    memset(&objs[nobj], 0, sizeof *objs);
    objs[nobj].kind = kind;
    objs[nobj].parent = N(parent);
    objs[nobj].db = N(db);
    return nobj++;
}
static void *ret(int n) { void *p = n < 0 ? NULL : H(n); put(">\x1f"); p_(p); end(); return p; }

/* ---- control by the harness */
void mock_reset(void) { used = 0; nobj = 0; creations = 0; fail_at = 0; if (rec) rec[0] = 0; }
void mock_fail(int n) { fail_at = creations + n; }
const char *mock_log(void) { if (!rec) put(" "), used = 0; rec[used] = 0; return rec; }
void mock_forget(void) { used = 0; }
static int write_ret;
void mock_write_ret(int r) { write_ret = r; }
typedef struct { int db, obj, ci, prop, kind, val; char *s; } prop;
static prop *props; static int nprop, capprop;
static prop *propof(int db, int o, int ci, int p, int kind) {
    for (int i = 0; i < nprop; i++) if (props[i].db == db && props[i].obj == o && props[i].ci == ci && props[i].prop == p && props[i].kind == kind) return &props[i];
    if (nprop == capprop) { capprop = capprop * 2 + 64; props = realloc(props, capprop * sizeof *props); }
    prop *q = &props[nprop++];
    q->db = db; q->obj = o; q->ci = ci; q->prop = p; q->kind = kind; q->val = 0; q->s = NULL;
    return q;
}
void mock_props_reset(void) { nprop = 0; }
void mock_set_prop(void *db, void *o, int ci, int p, int val, const char *s) { if (s) propof(N(db), N(o), ci, p, 1)->s = dup(s); else propof(N(db), N(o), ci, p, 0)->val = val; }

/* ---- the API */
void ucis_RegisterErrorHandler(ucis_ErrorHandler cb, void *userdata) { f_("RegisterErrorHandler"); i_(cb != NULL); p_(userdata); end(); }
ucisT ucis_Open(const char *file) { f_("Open"); s_(file); return ret(mk(DB, NULL, NULL)); }
int ucis_Close(ucisT db) { f_("Close"); p_(db); end(); return 0; }
int ucis_Write(ucisT db, const char *file, ucisScopeT scope, int recurse, ucisCoverTypeT covertype) { f_("Write"); p_(db); s_(file); p_(scope); i_(recurse); u_(covertype); end(); return write_ret; }
ucisHistoryNodeT ucis_CreateHistoryNode(ucisT db, ucisHistoryNodeT parent, char *logicalname, char *physicalname, ucisHistoryNodeKindT kind) {
    f_("CreateHistoryNode"); p_(db); p_(parent); s_(logicalname); s_(physicalname); i_(kind);
    int n = mk(HIST, db, parent);
    if (n >= 0) objs[n].hkind = kind;
    return ret(n);
}
static void keep_src(int n, ucisSourceInfoT *s) { if (n >= 0 && s) { objs[n].has_src = 1; objs[n].src = *s; } }
ucisScopeT ucis_CreateScope(ucisT db, ucisScopeT parent, const char *name, ucisSourceInfoT *srcinfo, int weight, ucisSourceT source, ucisScopeTypeT type, ucisFlagsT flags) {
    f_("CreateScope"); p_(db); p_(parent); s_(name); src_(srcinfo); i_(weight); i_(source); u_(type); u_((unsigned)flags);
    int n = mk(SCOPE, db, parent);
    if (n >= 0) objs[n].type = type;
    keep_src(n, srcinfo);
    return ret(n);
}
ucisScopeT ucis_CreateInstance(ucisT db, ucisScopeT parent, const char *name, ucisSourceInfoT *fileinfo, int weight, ucisSourceT source, ucisScopeTypeT type, ucisScopeT du_scope, ucisFlagsT flags) {
    f_("CreateInstance"); p_(db); p_(parent); s_(name); src_(fileinfo); i_(weight); i_(source); u_(type); p_(du_scope); u_((unsigned)flags);
    int n = mk(SCOPE, db, parent);
    if (n >= 0) objs[n].type = type;
    keep_src(n, fileinfo);
    return ret(n);
}
ucisScopeT ucis_CreateCross(ucisT db, ucisScopeT parent, const char *name, ucisSourceInfoT *fileinfo, int weight, ucisSourceT source, int num_points, ucisScopeT *points) {
    f_("CreateCross"); p_(db); p_(parent); s_(name); src_(fileinfo); i_(weight); i_(source); i_(num_points);
    put("[\x1f");
    for (int i = 0; i < num_points; i++) p_(points[i]);
    put("]\x1f");
    int n = mk(SCOPE, db, parent);
    if (n >= 0) objs[n].type = 0x8000ULL;
    keep_src(n, fileinfo);
    return ret(n);
}
ucisScopeT ucis_CreateToggle(ucisT db, ucisScopeT parent, const char *name, const char *canonical_name, ucisFlagsT flags, int metric, int type, int dir) {
    f_("CreateToggle"); p_(db); p_(parent); s_(name); s_(canonical_name); u_((unsigned)flags); i_(metric); i_(type); i_(dir);
    int n = mk(SCOPE, db, parent);
    if (n >= 0) objs[n].type = 1;
    return ret(n);
}
int ucis_CreateNextCover(ucisT db, ucisScopeT parent, const char *name, ucisCoverDataT *data, ucisSourceInfoT *sourceinfo) {
    f_("CreateNextCover"); p_(db); p_(parent); s_(name);
    if (!data) put("N\x1f");
    else {
        put("{\x1f"); u_(data->type); u_((unsigned)data->flags);
        if (data->flags & 1) u_(data->data.int32);
        else if (data->flags & 2) u_(data->data.int64);
        else if (data->flags & 4) b_(data->data.bytevector, (data->bitlen + 7) / 8);
        else u_(0);
        i_(data->goal); i_(data->weight); i_(data->limit); i_(data->bitlen); put("}\x1f");
    }
    src_(sourceinfo);
    int r = -1;
    if (++creations != fail_at) { int n = N(parent); r = n >= 0 ? objs[n].covers++ : 0; }
    put(">\x1f"); i_(r); end();
    return r;
}
ucisFileHandleT ucis_CreateFileHandle(ucisT db, const char *filename, const char *workdir) {
    f_("CreateFileHandle"); p_(db); s_(filename); s_(workdir);
    int n = mk(FILEH, db, NULL);
    if (n >= 0) objs[n].a = dup(filename);
    return ret(n);
}
const char *ucis_GetFileName(ucisT db, ucisFileHandleT fh) { f_("GetFileName"); p_(db); p_(fh); end(); int n = N(fh); return n >= 0 ? objs[n].a : NULL; }
void ucis_SetIntProperty(ucisT db, ucisObjT o, int ci, ucisIntPropertyEnumT p, int v) { f_("SetIntProperty"); p_(db); p_(o); i_(ci); i_(p); i_(v); end(); }
void ucis_SetStringProperty(ucisT db, ucisObjT o, int ci, ucisStringPropertyEnumT p, const char *v) { f_("SetStringProperty"); p_(db); p_(o); i_(ci); i_(p); s_(v); end(); }
int ucis_GetIntProperty(ucisT db, ucisObjT o, int ci, ucisIntPropertyEnumT p) { f_("GetIntProperty"); p_(db); p_(o); i_(ci); i_(p); end(); return propof(N(db), N(o), ci, p, 0)->val; }
const char *ucis_GetStringProperty(ucisT db, ucisObjT o, int ci, ucisStringPropertyEnumT p) { f_("GetStringProperty"); p_(db); p_(o); i_(ci); i_(p); end(); return propof(N(db), N(o), ci, p, 1)->s; }
void ucis_SetRealProperty(ucisT db, ucisObjT o, int ci, int p, double v) { f_("SetRealProperty"); p_(db); p_(o); i_(ci); i_(p); d_(v); end(); }
double ucis_GetRealProperty(ucisT db, ucisObjT o, int ci, int p) { f_("GetRealProperty"); p_(db); p_(o); i_(ci); i_(p); end(); return 0; }
void ucis_SetHandleProperty(ucisT db, ucisObjT o, int ci, int p, void *v) { f_("SetHandleProperty"); p_(db); p_(o); i_(ci); i_(p); p_(v); end(); }
void *ucis_GetHandleProperty(ucisT db, ucisObjT o, int ci, int p) { f_("GetHandleProperty"); p_(db); p_(o); i_(ci); i_(p); end(); return NULL; }
int ucis_SetTestData(ucisT db, ucisHistoryNodeT h, ucisTestDataT *t) {
    f_("SetTestData"); p_(db); p_(h);
    if (!t) put("N\x1f");
    else {
        put("{\x1f"); u_(t->teststatus); d_(t->simtime); s_(t->timeunit); s_(t->runcwd); d_(t->cputime); s_(t->seed); s_(t->cmd); s_(t->args); i_(t->compulsory); s_(t->date); s_(t->username); d_(t->cost);
        s_(t->toolcategory); put("}\x1f");
    }
    end();
    int n = N(h);
    if (n >= 0 && t) {
        ucisTestDataT *d = &objs[n].td;
        *d = *t;
        d->timeunit = dup(t->timeunit); d->runcwd = dup(t->runcwd); d->seed = dup(t->seed); d->cmd = dup(t->cmd); d->args = dup(t->args); d->date = dup(t->date); d->username = dup(t->username);
        d->toolcategory = dup(t->toolcategory);
        objs[n].has_td = 1;
    }
    return 0;
}
int ucis_GetTestData(ucisT db, ucisHistoryNodeT h, ucisTestDataT *t) {
    f_("GetTestData"); p_(db); p_(h); end();
    int n = N(h);
    if (n < 0 || !objs[n].has_td) return -1;
    *t = objs[n].td;
    return 0;
}
/* iterators: the iterator's object remembers what it walks in `type`/`hkind`, its position in `covers` */
ucisIteratorT ucis_ScopeIterate(ucisT db, ucisScopeT scope, ucisScopeMaskTypeT mask) {
    f_("ScopeIterate"); p_(db); p_(scope); u_(mask);
    int n = mk(ITER, db, scope);
    if (n >= 0) objs[n].type = mask;
    return ret(n);
}
ucisScopeT ucis_ScopeScan(ucisT db, ucisIteratorT it) {
    f_("ScopeScan"); p_(db); p_(it); end();
    int n = N(it);
    if (n < 0) return NULL;
    while (objs[n].covers < nobj) {
        int k = objs[n].covers++;
        if (objs[k].kind == SCOPE && objs[k].db == objs[n].db && objs[k].parent == objs[n].parent && (objs[k].type & objs[n].type)) return H(k);
    }
    return NULL;
}
ucisIteratorT ucis_HistoryIterate(ucisT db, ucisHistoryNodeT h, ucisHistoryNodeKindT kind) {
    f_("HistoryIterate"); p_(db); p_(h); i_(kind);
    int n = mk(ITER, db, h);
    if (n >= 0) objs[n].hkind = kind;
    return ret(n);
}
ucisHistoryNodeT ucis_HistoryScan(ucisT db, ucisIteratorT it) {
    f_("HistoryScan"); p_(db); p_(it); end();
    int n = N(it);
    if (n < 0) return NULL;
    while (objs[n].covers < nobj) {
        int k = objs[n].covers++;
        if (objs[k].kind == HIST && objs[k].db == objs[n].db && (objs[n].parent < 0 || objs[k].parent == objs[n].parent) && (objs[n].hkind <= 0 || objs[k].hkind == objs[n].hkind)) return H(k);
    }
    return NULL;
}
void ucis_FreeIterator(ucisT db, ucisIteratorT it) { f_("FreeIterator"); p_(db); p_(it); end(); }
int ucis_GetScopeSourceInfo(ucisT db, ucisScopeT scope, ucisSourceInfoT *s) {
    f_("GetScopeSourceInfo"); p_(db); p_(scope); end();
    int n = N(scope);
    if (n < 0 || !objs[n].has_src) return -1;
    *s = objs[n].src;
    return 0;
}
