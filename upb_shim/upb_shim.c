/* See upb/msg_internal.h. */
#include "upb/msg_internal.h"

struct chunk {
  struct chunk* next;
};
struct upb_arena {
  struct chunk* head;
};

upb_arena* upb_arena_new(void) { return (upb_arena*)calloc(1, sizeof(upb_arena)); }
void upb_arena_free(upb_arena* a) {
  struct chunk* c = a->head;
  while (c) {
    struct chunk* n = c->next;
    free(c);
    c = n;
  }
  free(a);
}
void* upb_arena_malloc(upb_arena* a, size_t size) {
  struct chunk* c = (struct chunk*)malloc(sizeof(struct chunk) + 8 + size);
  if (!c) abort();
  c->next = a->head;
  a->head = c;
  return (char*)c + 16;
}
_Static_assert(sizeof(struct chunk) == 8, "layout");

upb_msg* _upb_msg_new(const upb_msglayout* l, upb_arena* a) {
  void* m = upb_arena_malloc(a, l->size);
  memset(m, 0, l->size);
  return m;
}

static verif_upb_array** arr_at(const void* msg, size_t ofs) {
  return VERIF_UPB_PTR_AT(msg, ofs, verif_upb_array*);
}
const void* _upb_array_accessor(const void* msg, size_t ofs, size_t* size) {
  return _upb_array_mutable_accessor((void*)msg, ofs, size);
}
void* _upb_array_mutable_accessor(void* msg, size_t ofs, size_t* size) {
  verif_upb_array* a = *arr_at(msg, ofs);
  if (size) *size = a ? a->len : 0;
  return a ? a->data : NULL;
}
void* _upb_array_resize_accessor2(void* msg, size_t ofs, size_t size, int lg2,
                                  upb_arena* arena) {
  verif_upb_array** pa = arr_at(msg, ofs);
  if (!*pa) {
    *pa = (verif_upb_array*)upb_arena_malloc(arena, sizeof(verif_upb_array));
    memset(*pa, 0, sizeof(verif_upb_array));
    (*pa)->cap = 4;
    (*pa)->data = (char*)upb_arena_malloc(arena, (*pa)->cap << lg2);
  }
  if (size > (*pa)->cap) {
    size_t cap = (*pa)->cap;
    while (cap < size) cap *= 2;
    char* n = (char*)upb_arena_malloc(arena, cap << lg2);
    memcpy(n, (*pa)->data, (*pa)->len << lg2);
    (*pa)->data = n;
    (*pa)->cap = cap;
  }
  (*pa)->len = size;
  return (*pa)->data;
}
bool _upb_array_append_accessor2(void* msg, size_t ofs, int lg2,
                                 const void* value, upb_arena* arena) {
  size_t n = 0;
  _upb_array_mutable_accessor(msg, ofs, &n);
  char* d = (char*)_upb_array_resize_accessor2(msg, ofs, n + 1, lg2, arena);
  memcpy(d + (n << lg2), value, (size_t)1 << lg2);
  return true;
}

/* Maps are string->string only (Identity.attributes): an array of entry
 * messages laid out as {upb_strview key; upb_strview value}. */
typedef struct {
  upb_strview k, v;
} map_ent;
size_t _upb_msg_map_size(const upb_msg* msg, size_t ofs) {
  size_t n = 0;
  _upb_array_accessor(msg, ofs, &n);
  return n;
}
bool _upb_msg_map_get(const upb_msg* msg, size_t ofs, const void* key, size_t ks,
                      void* val, size_t vs) {
  size_t n = 0;
  map_ent** e = (map_ent**)_upb_array_accessor(msg, ofs, &n);
  (void)ks; (void)vs;
  for (size_t i = 0; i < n; i++)
    if (upb_strview_eql(e[i]->k, *(const upb_strview*)key)) {
      if (val) *(upb_strview*)val = e[i]->v;
      return true;
    }
  return false;
}
void* _upb_msg_map_next(const upb_msg* msg, size_t ofs, size_t* iter) {
  size_t n = 0;
  map_ent** e = (map_ent**)_upb_array_accessor(msg, ofs, &n);
  if (*iter >= n) return NULL;
  return e[(*iter)++];
}
bool _upb_msg_map_set(upb_msg* msg, size_t ofs, const void* key, size_t ks,
                      void* val, size_t vs, upb_arena* arena) {
  size_t n = 0;
  map_ent** e = (map_ent**)_upb_array_accessor(msg, ofs, &n);
  (void)ks; (void)vs;
  for (size_t i = 0; i < n; i++)
    if (upb_strview_eql(e[i]->k, *(const upb_strview*)key)) {
      e[i]->v = *(upb_strview*)val;
      return true;
    }
  map_ent* ne = (map_ent*)upb_arena_malloc(arena, sizeof(map_ent));
  ne->k = *(const upb_strview*)key;
  ne->v = *(upb_strview*)val;
  return _upb_array_append_accessor2(msg, ofs, 3, &ne, arena);
}
bool _upb_msg_map_delete(upb_msg* msg, size_t ofs, const void* key, size_t ks) {
  verif_upb_array* a = *arr_at(msg, ofs);
  (void)ks;
  if (!a) return false;
  map_ent** e = (map_ent**)a->data;
  for (size_t i = 0; i < a->len; i++)
    if (upb_strview_eql(e[i]->k, *(const upb_strview*)key)) {
      e[i] = e[a->len - 1];
      a->len--;
      return true;
    }
  return false;
}
void _upb_msg_map_clear(upb_msg* msg, size_t ofs) {
  verif_upb_array* a = *arr_at(msg, ofs);
  if (a) a->len = 0;
}
void _upb_msg_map_key(const void* msg, void* key, size_t size) {
  (void)size;
  *(upb_strview*)key = ((const map_ent*)msg)->k;
}
void _upb_msg_map_value(const void* msg, void* val, size_t size) {
  (void)size;
  *(upb_strview*)val = ((const map_ent*)msg)->v;
}
void _upb_msg_map_set_value(void* msg, const void* val, size_t size) {
  (void)size;
  ((map_ent*)msg)->v = *(const upb_strview*)val;
}

/* ---- descriptor types used by s2a-core's protos ---- */
enum { T_UINT64 = 4, T_BOOL = 8, T_STRING = 9, T_MESSAGE = 11, T_BYTES = 12, T_UINT32 = 13, T_ENUM = 14, T_INT32 = 5, T_INT64 = 3 };

static int lg2_of(int t) {
  switch (t) {
    case T_BOOL: return 0;
    case T_UINT32: case T_ENUM: case T_INT32: return 2;
    case T_UINT64: case T_INT64: case T_MESSAGE: return 3;
    case T_STRING: case T_BYTES: return 4;
    default: abort();
  }
}
static bool is_varint(int t) {
  return t == T_UINT64 || t == T_INT64 || t == T_BOOL || t == T_UINT32 || t == T_ENUM || t == T_INT32;
}

/* ---- decode ---- */
static bool rd_varint(const uint8_t** p, const uint8_t* end, uint64_t* out) {
  uint64_t v = 0;
  for (int i = 0; i < 10; i++) {
    if (*p >= end) return false;
    uint8_t b = *(*p)++;
    if (i == 9 && b > 1) return false;
    v |= (uint64_t)(b & 0x7f) << (7 * i);
    if (!(b & 0x80)) {
      *out = v;
      return true;
    }
  }
  return false;
}
static bool utf8_ok(const uint8_t* s, size_t n) {
  size_t i = 0;
  while (i < n) {
    uint8_t c = s[i];
    if (c < 0x80) { i++; continue; }
    int k; uint32_t cp;
    if (c >= 0xc2 && c <= 0xdf) { k = 1; cp = c & 0x1f; }
    else if (c >= 0xe0 && c <= 0xef) { k = 2; cp = c & 0x0f; }
    else if (c >= 0xf0 && c <= 0xf4) { k = 3; cp = c & 0x07; }
    else return false;
    if (i + k >= n) return false;
    for (int j = 1; j <= k; j++) {
      if ((s[i + j] & 0xc0) != 0x80) return false;
      cp = (cp << 6) | (s[i + j] & 0x3f);
    }
    if (k == 2 && (cp < 0x800 || (cp >= 0xd800 && cp <= 0xdfff))) return false;
    if (k == 3 && (cp < 0x10000 || cp > 0x10ffff)) return false;
    i += k + 1;
  }
  return true;
}
static void put_varint(void* dst, int t, uint64_t v) {
  switch (lg2_of(t)) {
    case 0: *(bool*)dst = v != 0; break;
    case 2: { uint32_t x = (uint32_t)v; memcpy(dst, &x, 4); break; }
    default: memcpy(dst, &v, 8);
  }
}
static bool dec(const uint8_t* p, const uint8_t* end, void* msg, const upb_msglayout* l, upb_arena* ar, int depth);

static bool skip(const uint8_t** p, const uint8_t* end, int wt, uint32_t num, int depth) {
  uint64_t v;
  if (depth <= 0) return false;
  switch (wt) {
    case 0: return rd_varint(p, end, &v);
    case 1: if (end - *p < 8) return false; *p += 8; return true;
    case 5: if (end - *p < 4) return false; *p += 4; return true;
    case 2: if (!rd_varint(p, end, &v) || v > (uint64_t)(end - *p)) return false; *p += v; return true;
    case 3:
      for (;;) {
        if (!rd_varint(p, end, &v)) return false;
        if ((v & 7) == 4) return (uint32_t)(v >> 3) == num;
        if (!skip(p, end, v & 7, (uint32_t)(v >> 3), depth - 1)) return false;
      }
    default: return false;
  }
}
static bool dec(const uint8_t* p, const uint8_t* end, void* msg, const upb_msglayout* l, upb_arena* ar, int depth) {
  if (depth <= 0) return false;
  while (p < end) {
    uint64_t tag;
    if (!rd_varint(&p, end, &tag) || tag > UINT32_MAX) return false;
    uint32_t num = (uint32_t)(tag >> 3);
    int wt = tag & 7;
    if (num == 0) return false;
    const upb_msglayout_field* f = NULL;
    for (int i = 0; i < l->field_count; i++)
      if (l->fields[i].number == num) f = &l->fields[i];
    bool rep = f && f->label != 1 && f->label != 2;
    bool known = f && ((is_varint(f->descriptortype) && (wt == 0 || (wt == 2 && rep))) ||
                       (!is_varint(f->descriptortype) && wt == 2));
    if (!known) {
      if (wt == 4 || !skip(&p, end, wt, num, 100)) return false;
      continue;
    }
    int t = f->descriptortype;
    uint64_t v;
    if (!rd_varint(&p, end, &v)) return false;
    if (wt == 0) {
      if (rep) {
        char tmp[8];
        put_varint(tmp, t, v);
        _upb_array_append_accessor2(msg, f->offset, lg2_of(t), tmp, ar);
      } else {
        put_varint((char*)msg + f->offset, t, v);
      }
    } else {
      if (v > (uint64_t)(end - p)) return false;
      const uint8_t* e2 = p + v;
      if (is_varint(t)) {
        while (p < e2) {
          uint64_t x;
          char tmp[8];
          if (!rd_varint(&p, e2, &x)) return false;
          put_varint(tmp, t, x);
          _upb_array_append_accessor2(msg, f->offset, lg2_of(t), tmp, ar);
        }
      } else if (t == T_MESSAGE) {
        const upb_msglayout* sl = l->submsgs[f->submsg_index];
        void* sub;
        if (f->label == _UPB_LABEL_MAP) {
          sub = _upb_msg_new(sl, ar);
          if (!dec(p, e2, sub, sl, ar, depth - 1)) return false;
          map_ent* me = (map_ent*)sub;
          _upb_msg_map_set(msg, f->offset, &me->k, 0, &me->v, 0, ar);
        } else if (rep) {
          sub = _upb_msg_new(sl, ar);
          _upb_array_append_accessor2(msg, f->offset, 3, &sub, ar);
          if (!dec(p, e2, sub, sl, ar, depth - 1)) return false;
        } else {
          void** slot = VERIF_UPB_PTR_AT(msg, f->offset, void*);
          if (f->presence < 0 && *VERIF_UPB_PTR_AT(msg, ~f->presence, uint32_t) != num) *slot = NULL;
          if (!*slot) *slot = _upb_msg_new(sl, ar);
          sub = *slot;
          if (!dec(p, e2, sub, sl, ar, depth - 1)) return false;
        }
        p = e2;
      } else {
        if (t == T_STRING && !utf8_ok(p, v)) return false;
        char* copy = (char*)upb_arena_malloc(ar, v);
        memcpy(copy, p, v);
        upb_strview sv = upb_strview_make(copy, v);
        if (rep) _upb_array_append_accessor2(msg, f->offset, 4, &sv, ar);
        else *VERIF_UPB_PTR_AT(msg, f->offset, upb_strview) = sv;
        p = e2;
      }
    }
    if (!rep) {
      if (f->presence > 0) _upb_sethas(msg, f->presence);
      else if (f->presence < 0) *VERIF_UPB_PTR_AT(msg, ~f->presence, uint32_t) = num;
    }
  }
  return p == end;
}
/* Fault injection: the real decoder and encoder fail when memory runs out. */
int verif_upb_fail_decode, verif_upb_fail_encode, verif_upb_failed;
bool _upb_decode(const char* buf, size_t size, upb_msg* msg, const upb_msglayout* l, upb_arena* arena, int options) {
  (void)options;
  if (verif_upb_fail_decode) {
    verif_upb_failed++;
    return false;
  }
  return dec((const uint8_t*)buf, (const uint8_t*)buf + size, msg, l, arena, 64);
}

/* ---- encode ---- */
typedef struct {
  char* d;
  size_t n, cap;
} obuf;
static void ob(obuf* o, const void* p, size_t n) {
  if (o->n + n > o->cap) {
    o->cap = (o->n + n) * 2 + 64;
    o->d = (char*)realloc(o->d, o->cap);
    if (!o->d) abort();
  }
  if (n) memcpy(o->d + o->n, p, n);
  o->n += n;
}
static void ov(obuf* o, uint64_t v) {
  do {
    uint8_t b = v & 0x7f;
    v >>= 7;
    if (v) b |= 0x80;
    ob(o, &b, 1);
  } while (v);
}
static uint64_t get_varint(const void* src, int t) {
  switch (lg2_of(t)) {
    case 0: return *(const bool*)src ? 1 : 0;
    case 2: { int32_t x; memcpy(&x, src, 4); return t == T_UINT32 ? (uint64_t)(uint32_t)x : (uint64_t)(int64_t)x; }
    default: { uint64_t x; memcpy(&x, src, 8); return x; }
  }
}
static void enc(obuf* o, const void* msg, const upb_msglayout* l);
static void enc_sub(obuf* o, uint32_t num, const void* sub, const upb_msglayout* l) {
  obuf s = {0};
  enc(&s, sub, l);
  ov(o, (uint64_t)num << 3 | 2);
  ov(o, s.n);
  ob(o, s.d, s.n);
  free(s.d);
}
static void enc_str(obuf* o, uint32_t num, upb_strview s) {
  ov(o, (uint64_t)num << 3 | 2);
  ov(o, s.size);
  ob(o, s.data, s.size);
}
static void enc(obuf* o, const void* msg, const upb_msglayout* l) {
  for (int i = 0; i < l->field_count; i++) {
    const upb_msglayout_field* f = &l->fields[i];
    int t = f->descriptortype;
    const char* at = (const char*)msg + f->offset;
    if (f->label != 1 && f->label != 2) {
      size_t n = 0;
      const char* d = (const char*)_upb_array_accessor(msg, f->offset, &n);
      if (n == 0) continue;
      if (t == T_MESSAGE) {
        for (size_t k = 0; k < n; k++)
          enc_sub(o, f->number, ((void* const*)d)[k], l->submsgs[f->submsg_index]);
      } else if (t == T_STRING || t == T_BYTES) {
        for (size_t k = 0; k < n; k++) enc_str(o, f->number, ((const upb_strview*)d)[k]);
      } else if (f->label == _UPB_LABEL_PACKED) {
        obuf s = {0};
        for (size_t k = 0; k < n; k++) ov(&s, get_varint(d + (k << lg2_of(t)), t));
        ov(o, (uint64_t)f->number << 3 | 2);
        ov(o, s.n);
        ob(o, s.d, s.n);
        free(s.d);
      } else {
        for (size_t k = 0; k < n; k++) {
          ov(o, (uint64_t)f->number << 3);
          ov(o, get_varint(d + (k << lg2_of(t)), t));
        }
      }
      continue;
    }
    bool present;
    if (f->presence > 0) present = _upb_hasbit(msg, f->presence);
    else if (f->presence < 0) present = _upb_getoneofcase(msg, ~f->presence) == f->number;
    else if (t == T_MESSAGE) present = *(void* const*)at != NULL;
    else if (t == T_STRING || t == T_BYTES) present = ((const upb_strview*)at)->size != 0;
    else present = get_varint(at, t) != 0;
    if (!present) continue;
    if (t == T_MESSAGE) {
      const void* sub = *(void* const*)at;
      if (sub) enc_sub(o, f->number, sub, l->submsgs[f->submsg_index]);
    } else if (t == T_STRING || t == T_BYTES) {
      enc_str(o, f->number, *(const upb_strview*)at);
    } else {
      ov(o, (uint64_t)f->number << 3);
      ov(o, get_varint(at, t));
    }
  }
}
char* upb_encode(const void* msg, const upb_msglayout* l, upb_arena* arena, size_t* size) {
  obuf o = {0};
  if (verif_upb_fail_encode) {
    verif_upb_failed++;
    *size = 0;
    return NULL;
  }
  enc(&o, msg, l);
  char* r = (char*)upb_arena_malloc(arena, o.n);
  memcpy(r, o.d ? o.d : "", o.n);
  *size = o.n;
  free(o.d);
  return r;
}
