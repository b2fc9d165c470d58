/* Runs a history of C calls read from standard input against the library, through the
 * published header, and prints what each call returned. See src/cscript.rs. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <inttypes.h>
#include <sys/resource.h>
#include "gphrx.h"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define ASAN 1
size_t __sanitizer_get_current_allocated_bytes(void);
#endif
#endif

enum { EMPTY, G, C, M, BYTES, TEXT, PAIRS, ONES, TRIPS };
typedef struct {
    int k;
    GphrxGraph g;
    GphrxCompressedGraph c;
    GphrxCsrSquareMatrix m;
    const void *p;
    size_t n;
} Slot;
#define NSLOT 4096
static Slot slot[NSLOT];
static char *cur;
static char *words[1 << 18];
static int nw, iw;

static char *next(void) {
    if (iw >= nw) { fprintf(stderr, "DRIVER-BUG: short line\n"); exit(90); }
    return words[iw++];
}
static uint64_t num(void) { return strtoull(next(), NULL, 10); }
static int sl(void) { char *w = next(); return w[0] == '-' ? -1 : (int)strtol(w, NULL, 10); }
static GphrxGraph g_of(int s) {
    GphrxGraph z = {0};
    return s >= 0 && slot[s].k == G ? slot[s].g : z;
}
static GphrxCompressedGraph c_of(int s) {
    GphrxCompressedGraph z = {0};
    return s >= 0 && slot[s].k == C ? slot[s].c : z;
}
static GphrxCsrSquareMatrix m_of(int s) {
    GphrxCsrSquareMatrix z = {0};
    return s >= 0 && slot[s].k == M ? slot[s].m : z;
}
static void hex(const uint8_t *p, size_t n) {
    if (n == 0) putchar('.');
    for (size_t i = 0; i < n; i++) printf("%02x", p[i]);
    putchar('\n');
}
static void show(int s) {
    Slot *x = &slot[s];
    switch (x->k) {
    case BYTES: printf("b "); hex(x->p, x->n); break;
    case TEXT: printf("t "); hex(x->p, strlen(x->p)); break;
    case PAIRS: {
        const GphrxGraphEdge *e = x->p;
        printf("p");
        for (size_t i = 0; i < x->n; i++) printf(" %" PRIu64 " %" PRIu64, e[i].from_vertex, e[i].to_vertex);
        printf("\n"); break;
    }
    case ONES: {
        const GphrxGraphVertex *e = x->p;
        printf("o");
        for (size_t i = 0; i < x->n; i++) printf(" %" PRIu64, e[i].vertex_id);
        printf("\n"); break;
    }
    case TRIPS: {
        const GphrxMatrixEntry *e = x->p;
        printf("r");
        for (size_t i = 0; i < x->n; i++) {
            uint64_t b;
            memcpy(&b, &e[i].entry, 8);
            printf(" %" PRIu64 " %" PRIu64 " %" PRIu64, b, e[i].col, e[i].row);
        }
        printf("\n"); break;
    }
    default: printf(".\n");
    }
}
static void got_g(int d, GphrxGraph g, int err) {
    if (g.graph_ptr) { slot[d].k = G; slot[d].g = g; }
    if (err < 0) printf("h %d -\n", g.graph_ptr != NULL); else printf("h %d %d\n", g.graph_ptr != NULL, err);
}
static void got_c(int d, GphrxCompressedGraph g, int err) {
    if (g.graph_ptr) { slot[d].k = C; slot[d].c = g; }
    if (err < 0) printf("h %d -\n", g.graph_ptr != NULL); else printf("h %d %d\n", g.graph_ptr != NULL, err);
}
static void got_m(int d, GphrxCsrSquareMatrix m) {
    if (m.matrix_ptr) { slot[d].k = M; slot[d].m = m; }
    printf("h %d -\n", m.matrix_ptr != NULL);
}
static void got_text(int d, const char *t) {
    if (!t) { printf("z -\n"); return; }
    slot[d].k = TEXT; slot[d].p = t; show(d);
}
static void release(int s) {
    Slot *x = &slot[s];
    switch (x->k) {
    case G: free_gphrx_graph(x->g); break;
    case C: free_gphrx_compressed_graph(x->c); break;
    case M: free_gphrx_matrix(x->m); break;
    case BYTES: free_gphrx_bytes_buffer(x->p, x->n); break;
    case TEXT: free_gphrx_string_buffer(x->p); break;
    case PAIRS: free_gphrx_edge_list(x->p, x->n); break;
    case ONES: free_gphrx_vertex_list(x->p, x->n); break;
    case TRIPS: free_gphrx_matrix_entry_list(x->p, x->n); break;
    }
    memset(x, 0, sizeof *x);
}
#define LIST(KIND, CALL, RELEASE)                                                             \
    do {                                                                                      \
        size_t len = 0xdeadbeefdeadu, *lp = nolen ? NULL : &len;                              \
        const void *p;                                                                        \
        { size_t *L = lp; p = CALL; }                                                         \
        if (!p) {                                                                             \
            if (nolen) printf("z -\n"); else printf("z %zu\n", len);                          \
            break;                                                                            \
        }                                                                                     \
        if (nolen) { size_t *L = &len; const void *q = CALL; RELEASE(q, len); }               \
        slot[d].k = KIND; slot[d].p = p; slot[d].n = len;                                     \
        show(d);                                                                              \
    } while (0)

static int nib(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
/* A byte source: fills p and n; *owned is to be freed by the caller. */
static void source(const uint8_t **p, size_t *n, uint8_t **owned) {
    char *k = next();
    *owned = NULL;
    if (k[0] == 'x') {
        char *h = next();
        size_t l = h[0] == '.' ? 0 : strlen(h) / 2;
        /* at any alignment, up to the end of its memory */
        size_t off = l < 26 ? l % 3 : (size_t)(h[2 * l - 1] + h[2 * l - 2] * 3 + l / 8) % 24;
        if (off > 12) off = 0;
        *owned = malloc(off + l ? off + l : 1);
        memset(*owned, 0xa5, off);
        for (size_t i = 0; i < l; i++) (*owned)[off + i] = (uint8_t)(nib(h[2 * i]) << 4 | nib(h[2 * i + 1]));
        *p = *owned + off; *n = l;
    } else if (k[0] == 's') {
        int s = sl();
        if (slot[s].k == BYTES) { *p = slot[s].p; *n = slot[s].n; } else { *p = NULL; *n = 0; }
    } else { *p = NULL; *n = (size_t)num(); }
}

static void run(char *line) {
    nw = 0; iw = 0;
    for (char *w = strtok(line, " "); w && nw < 1 << 18; w = strtok(NULL, " ")) words[nw++] = w;
    if (nw == 0) return;
    const char *op = next();
#define IS(x) (strcmp(op, x) == 0)
    if (IS("new")) { int d = sl(); got_g(d, num() ? gphrx_new_undirected() : gphrx_new_directed(), -1); }
    else if (IS("dup")) { int d = sl(), s = sl(); got_g(d, gphrx_duplicate(g_of(s)), -1); }
    else if (IS("add")) { int s = sl(); uint64_t a = num(), b = num(); gphrx_add_edge(g_of(s), a, b); printf(".\n"); }
    else if (IS("del")) { int s = sl(); uint64_t a = num(), b = num(); gphrx_delete_edge(g_of(s), a, b); printf(".\n"); }
    else if (IS("vert")) {
        int s = sl(); uint64_t v = num(), mode = num(), n = num();
        /* an exact-size block, so that a read past the list is visible */
        uint64_t *l = malloc(n ? n * 8 : 1);
        for (uint64_t i = 0; i < n; i++) l[i] = num();
        if (mode == 0) gphrx_add_vertex(g_of(s), v, l, n);
        else if (mode == 1) gphrx_add_vertex(g_of(s), v, NULL, 0);
        else if (mode == 2) gphrx_add_vertex(g_of(s), v, NULL, 3);
        else gphrx_add_vertex(g_of(s), v, l, 0);
        free(l);
        printf(".\n");
    }
    else if (IS("q")) {
        GphrxGraph g = g_of(sl()); int q = (int)num(); uint64_t a = num(), b = num(), r = 0;
        switch (q) {
        case 0: r = (uint64_t)gphrx_is_undirected(g); break;
        case 1: r = gphrx_vertex_count(g); break;
        case 2: r = gphrx_edge_count(g); break;
        case 3: r = (uint64_t)gphrx_does_edge_exist(g, a, b); break;
        case 4: r = gphrx_get_vertex_in_degree(g, a); break;
        case 5: r = gphrx_get_vertex_out_degree(g, a); break;
        }
        printf("u %" PRIu64 "\n", r);
    }
    else if (IS("text")) { int d = sl(), s = sl(); got_text(d, gphrx_matrix_string(g_of(s))); }
    else if (IS("bytes")) { int d = sl(), s = sl(), nolen = (int)num(); LIST(BYTES, gphrx_to_bytes(g_of(s), L), free_gphrx_bytes_buffer); }
    else if (IS("load") || IS("cload")) {
        int d = sl(), noerr = (int)num();
        const uint8_t *p; size_t n; uint8_t *own; uint8_t e[3] = {0x5a, 77, 0xa5};
        source(&p, &n, &own);
        if (IS("load")) { GphrxGraph g = gphrx_from_bytes(p, n, noerr ? NULL : &e[1]); got_g(d, g, noerr ? -1 : e[1]); }
        else { GphrxCompressedGraph g = gphrx_compressed_graph_from_bytes(p, n, noerr ? NULL : &e[1]); got_c(d, g, noerr ? -1 : e[1]); }
        if (e[0] != 0x5a || e[2] != 0xa5) { fprintf(stderr, "DRIVER: bytes around the error code were overwritten\n"); exit(91); }
        /* an error must be GPHRX_ERROR_INVALID_FORMAT */
        if (GPHRX_ERROR_INVALID_FORMAT != 1) { fprintf(stderr, "DRIVER: header changed the error code\n"); exit(91); }
        free(own);
    }
    else if (IS("edges")) { int d = sl(), s = sl(), nolen = (int)num(); LIST(PAIRS, gphrx_get_edge_list(g_of(s), L), free_gphrx_edge_list); }
    else if (IS("in")) { int d = sl(), s = sl(); uint64_t v = num(); int nolen = (int)num(); LIST(ONES, gphrx_get_vertex_in_edges_list(g_of(s), v, L), free_gphrx_vertex_list); }
    else if (IS("out")) { int d = sl(), s = sl(); uint64_t v = num(); int nolen = (int)num(); LIST(ONES, gphrx_get_vertex_out_edges_list(g_of(s), v, L), free_gphrx_vertex_list); }
    else if (IS("pool")) { int d = sl(), s = sl(); uint64_t b = num(); got_m(d, gphrx_find_avg_pool_matrix(g_of(s), b)); }
    else if (IS("approx")) {
        int d = sl(), s = sl(); uint64_t b = num(), t = num(); double x; memcpy(&x, &t, 8);
        got_g(d, gphrx_approximate(g_of(s), b, x), -1);
    }
    else if (IS("compress")) { int d = sl(), s = sl(); uint8_t l = (uint8_t)num(); got_c(d, gphrx_compress(g_of(s), l), -1); }
    else if (IS("cdup")) { int d = sl(), s = sl(); got_c(d, gphrx_compressed_graph_duplicate(c_of(s)), -1); }
    else if (IS("cq")) {
        GphrxCompressedGraph c = c_of(sl()); int q = (int)num(); uint64_t a = num(), b = num(), r = 0;
        switch (q) {
        case 0: r = gphrx_compressed_graph_compression_level(c); break;
        case 1: r = (uint64_t)gphrx_compressed_graph_is_undirected(c); break;
        case 2: r = gphrx_compressed_graph_vertex_count(c); break;
        case 3: r = gphrx_compressed_graph_edge_count(c); break;
        case 4: r = (uint64_t)gphrx_compressed_graph_does_edge_exist(c, a, b); break;
        case 5: r = gphrx_get_compressed_matrix_entry(c, a, b); break;
        }
        printf("u %" PRIu64 "\n", r);
    }
    else if (IS("ctext")) { int d = sl(), s = sl(); got_text(d, gphrx_compressed_graph_matrix_string(c_of(s))); }
    else if (IS("cbytes")) { int d = sl(), s = sl(), nolen = (int)num(); LIST(BYTES, gphrx_compressed_graph_to_bytes(c_of(s), L), free_gphrx_bytes_buffer); }
    else if (IS("decomp")) { int d = sl(), s = sl(); got_g(d, gphrx_decompress(c_of(s)), -1); }
    else if (IS("mdup")) { int d = sl(), s = sl(); got_m(d, gphrx_matrix_duplicate(m_of(s))); }
    else if (IS("mq")) {
        int s = sl(), q = (int)num();
        printf("u %" PRIu64 "\n", q == 0 ? gphrx_matrix_dimension(m_of(s)) : gphrx_matrix_entry_count(m_of(s)));
    }
    else if (IS("mget")) {
        int s = sl(); uint64_t c = num(), r = num(), b; double x = gphrx_matrix_get_entry(m_of(s), c, r);
        memcpy(&b, &x, 8);
        printf("f %" PRIu64 "\n", b);
    }
    else if (IS("mtext")) { int d = sl(), s = sl(); got_text(d, gphrx_matrix_to_string(m_of(s))); }
    else if (IS("mtextp")) { int d = sl(), s = sl(); size_t p = num(); got_text(d, gphrx_matrix_to_string_with_precision(m_of(s), p)); }
    else if (IS("mentries")) { int d = sl(), s = sl(), nolen = (int)num(); LIST(TRIPS, gphrx_matrix_get_entry_list(m_of(s), L), free_gphrx_matrix_entry_list); }
    else if (IS("reread")) show(sl());
    else if (IS("free")) { release(sl()); printf(".\n"); }
    else if (IS("freenulls")) {
        size_t n = num();
        GphrxGraph g = {0}; GphrxCompressedGraph c = {0}; GphrxCsrSquareMatrix m = {0};
        free_gphrx_string_buffer(NULL); free_gphrx_bytes_buffer(NULL, n); free_gphrx_graph(g);
        free_gphrx_edge_list(NULL, n); free_gphrx_vertex_list(NULL, n); free_gphrx_compressed_graph(c);
        free_gphrx_matrix(m); free_gphrx_matrix_entry_list(NULL, n);
        printf(".\n");
    }
    else { fprintf(stderr, "DRIVER-BUG: unknown operation %s\n", op); exit(90); }
}

int main(void) {
    static char out[1 << 16];
    setvbuf(stdout, out, _IOFBF, sizeof out);
    struct rlimit c = {60, 60};
    setrlimit(RLIMIT_CPU, &c);
#ifndef ASAN
    struct rlimit a = {(rlim_t)4 << 30, (rlim_t)4 << 30};
    setrlimit(RLIMIT_AS, &a);
#endif
    size_t cap = 1 << 20, len = 0;
    char *buf = malloc(cap + 1);
    for (size_t k; (k = fread(buf + len, 1, cap - len, stdin)) > 0;) {
        len += k;
        if (len == cap) buf = realloc(buf, (cap *= 2) + 1);
    }
    buf[len] = 0;
    /* first use of the library, so that one-time allocations are not counted */
    GphrxGraph w = gphrx_new_directed();
    gphrx_add_edge(w, 1, 2);
    free_gphrx_string_buffer(gphrx_matrix_string(w));
    free_gphrx_graph(w);
#ifdef ASAN
    size_t before = __sanitizer_get_current_allocated_bytes();
#endif
    char *save = buf;
    for (cur = buf; cur && *cur;) {
        char *nl = strchr(cur, '\n');
        if (nl) *nl = 0;
        run(cur);
        cur = nl ? nl + 1 : NULL;
    }
    for (int i = 0; i < NSLOT; i++) release(i);
#ifdef ASAN
    size_t after = __sanitizer_get_current_allocated_bytes();
    if (after != before) {
        fflush(stdout);
        fprintf(stderr, "DRIVER-LEAK: %zd bytes still allocated after everything was released\n", (ssize_t)(after - before));
        exit(92);
    }
#endif
    printf("end\n");
    fflush(stdout);
    free(save);
    return 0;
}
