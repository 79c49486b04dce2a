#include "hm.h"
#include "c_include/vector.h"
/* an arbitrary history of operations on a dynamic array, against a plain list */
#define VEC(T, NAME) \
static void NAME##_same(T *v, T *ref, size_t n) { sx_assert(vector_size(v) == n, "size"); sx_assert(vector_capacity(v) >= n, "capacity is at least the size"); sx_assert(!!vector_empty(v) == (n == 0), "empty exactly when the size is zero"); \
  sx_assert(vector_begin(v) == v && (v == NULL ? vector_end(v) == NULL : vector_end(v) == v + n), "begin and end delimit the elements"); for (size_t i = 0; i < n; i++) { char d = memcmp(&v[i], &ref[i], sizeof(T)) != 0; sx_assert(!d, "elements in order"); } } \
void h_vec_##NAME(void) { int steps = (int)sx_param("steps", 5); T *v = NULL; T ref[64]; size_t n = 0; long h0 = sx_live_heap(); \
  for (int s = 0; s < steps; s++) { int op = (int)sx_choose("op", 0, 4); T x; sx_make_symbolic(&x, sizeof x, "x"); \
    if (op == 0) { vector_push_back(v, x); ref[n++] = x; } \
    else if (op == 1) { vector_pop_back(v); if (n) n--; } \
    else if (op == 2) { size_t i = (size_t)sx_choose("i", 0, steps); vector_erase(v, i); if (i < n) { for (size_t k = i; k + 1 < n; k++) ref[k] = ref[k + 1]; n--; } } \
    else if (op == 3) { int k = (int)sx_choose("k", 0, 3); vector_init(v, x, k); n = 0; while ((int)n < k) ref[n++] = x; } \
    else { vector_free(v); sx_assert(v == NULL, "freed array is empty"); n = 0; sx_assert(sx_live_heap() == h0, "freed array retains nothing"); } \
    NAME##_same(v, ref, n); } \
  sx_assert(sx_live_heap() == h0 + (v ? 1 : 0), "one block at most"); vector_free(v); sx_assert(sx_live_heap() == h0, "nothing retained"); } \
void h_long_##NAME(void) { int n = (int)sx_param("n", 40); T *v = NULL, ref[300]; for (int i = 0; i < n; i++) { T x; sx_make_symbolic(&x, sizeof x, "x"); ref[i] = x; vector_push_back(v, x); sx_assert(vector_size(v) == (size_t)i + 1, "size"); } NAME##_same(v, ref, n); int k = (int)sx_choose("at", 0, n - 1); vector_erase(v, k); for (int i = k; i + 1 < n; i++) ref[i] = ref[i + 1]; NAME##_same(v, ref, n - 1); \
  for (int i = 0; i < n / 2; i++) vector_pop_back(v); NAME##_same(v, ref, n - 1 - n / 2); T y; sx_make_symbolic(&y, sizeof y, "y"); vector_push_back(v, y); ref[n - 1 - n / 2] = y; NAME##_same(v, ref, n - n / 2); vector_free(v); }
/* fill, drain by one kind of removal down to a chosen length, refill, drain by another kind */
#define DRAIN(T, NAME) \
void h_drain_##NAME(void) { int n = (int)sx_param("n", 12), keep = (int)sx_choose("keep", 0, n); T *v = NULL, ref[300]; size_t k = 0; long h0 = sx_live_heap(); \
  for (int round = 0; round < 2; round++) { int how = (int)sx_choose("how", 0, 3); while ((int)k < n) { T x; sx_make_symbolic(&x, sizeof x, "x"); vector_push_back(v, x); ref[k++] = x; NAME##_same(v, ref, k); } \
    while ((int)k > keep) { size_t at = how == 0 ? 0 : how == 1 ? k / 2 : k - 1; if (how == 3) { vector_pop_back(v); } else { vector_erase(v, at); for (size_t i = at; i + 1 < k; i++) ref[i] = ref[i + 1]; } k--; NAME##_same(v, ref, k); } } \
  vector_free(v); sx_assert(sx_live_heap() == h0, "nothing retained"); }
typedef struct { int a; short b; char c; char d; } rec;
VEC(char, c) VEC(int, i) VEC(double, d) VEC(rec, r)
DRAIN(char, c) DRAIN(int, i) DRAIN(double, d) DRAIN(rec, r)
/* structuring elements */
void h_se(void) {
  int w = (int)sx_choose("w", 1, sx_param("box", 4)), h = (int)sx_choose("h", 1, sx_param("box", 4)); long h0 = sx_live_heap(); S_2D s = create_2D_struct(w, h); sx_assert(s && s->width == w && s->height == h && s->data, "dimensions");
  for (int i = 0; i < w * h; i++) sx_assert(((unsigned char *)s->data)[i] == 1, "a plain element is all ones"); memset(s->data, 5, w * h); sx_assert(s->width == w && s->height == h, "data and header are disjoint"); delete_S_2D(s); sx_assert(sx_live_heap() == h0, "nothing retained"); delete_S_2D(NULL);
  unsigned char *d = (unsigned char *)malloc(w * h); sx_make_symbolic(d, w * h, "se"); void *c = dup_bytes(d, w * h); s = create_2D_struct_with_data(w, h, d); sx_assert(s && s->width == w && s->height == h, "dimensions with data"); check_bytes(s->data, c, w * h, "the given pattern"); delete_S_2D(s); check_bytes(d, c, w * h, "deleting the element leaves the caller's pattern alone"); free(d);
}
void h_se_big(void) { int w = (int)sx_param("w", 1), h = (int)sx_param("h", 1); S_2D s = create_2D_struct(w, h); sx_assert(s->width == w && s->height == h, "dimensions"); for (int i = 0; i < w * h; i++) sx_assert(((unsigned char *)s->data)[i] == 1, "all ones"); delete_S_2D(s); }
void h_se_bad(void) { int w = sx_int("w"), h = sx_int("h"); sx_assume(w <= 3 && h <= 3 && (w < 1 || h < 1)); sx_exit_mode(1); S_2D s = sx_param("data", 0) ? create_2D_struct_with_data(w, h, NULL) : create_2D_struct(w, h); sx_assert(s == NULL, "an empty element is refused"); }
