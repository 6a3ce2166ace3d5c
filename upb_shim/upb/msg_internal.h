/* Stand-in for the upb runtime (which is not installed here): just enough of
 * the early-2021 upb API for s2a-core's generated *.upb.{h,c} and its sources
 * to compile and run. Wire format, presence, oneof and packed handling follow
 * the protobuf encoding spec. This is a STUB for a third-party dependency; the
 * generated accessors and layout tables in /repo are the real ones. */
#ifndef VERIF_UPB_SHIM_MSG_INTERNAL_H_
#define VERIF_UPB_SHIM_MSG_INTERNAL_H_

#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#ifdef __cplusplus
extern "C" {
#endif

typedef void upb_msg;
typedef struct upb_arena upb_arena;

typedef struct {
  const char* data;
  size_t size;
} upb_strview;

static inline upb_strview upb_strview_make(const char* data, size_t size) {
  upb_strview r;
  r.data = data;
  r.size = size;
  return r;
}
static inline upb_strview upb_strview_makez(const char* data) {
  return upb_strview_make(data, strlen(data));
}
static inline bool upb_strview_eql(upb_strview a, upb_strview b) {
  return a.size == b.size && (a.size == 0 || memcmp(a.data, b.data, a.size) == 0);
}

upb_arena* upb_arena_new(void);
void upb_arena_free(upb_arena* a);
void* upb_arena_malloc(upb_arena* a, size_t size);

typedef struct {
  uint32_t number;
  uint16_t offset;
  int16_t presence; /* >0: hasbit index, <0: ~oneof case offset, 0: implicit */
  uint16_t submsg_index;
  uint8_t descriptortype;
  uint8_t label;
} upb_msglayout_field;

typedef struct upb_msglayout {
  const struct upb_msglayout* const* submsgs;
  const upb_msglayout_field* fields;
  uint16_t size;
  uint16_t field_count;
  bool extendable;
  uint8_t table_mask;
} upb_msglayout;

enum { _UPB_LABEL_MAP = 5, _UPB_LABEL_PACKED = 7 };

typedef struct {
  char* data;
  size_t len;
  size_t cap;
} verif_upb_array;

#define VERIF_UPB_PTR_AT(msg, ofs, type) ((type*)((char*)(msg) + (ofs)))

upb_msg* _upb_msg_new(const upb_msglayout* l, upb_arena* a);

static inline bool _upb_hasbit(const upb_msg* msg, size_t idx) {
  return (*VERIF_UPB_PTR_AT(msg, idx / 8, const char) & (1 << (idx % 8))) != 0;
}
static inline void _upb_sethas(const upb_msg* msg, size_t idx) {
  *VERIF_UPB_PTR_AT(msg, idx / 8, char) |= (char)(1 << (idx % 8));
}
static inline uint32_t _upb_getoneofcase(const upb_msg* msg, size_t ofs) {
  return *VERIF_UPB_PTR_AT(msg, ofs, const uint32_t);
}
static inline bool _upb_has_submsg_nohasbit(const upb_msg* msg, size_t ofs) {
  return *VERIF_UPB_PTR_AT(msg, ofs, void* const) != NULL;
}

const void* _upb_array_accessor(const void* msg, size_t ofs, size_t* size);
void* _upb_array_mutable_accessor(void* msg, size_t ofs, size_t* size);
void* _upb_array_resize_accessor2(void* msg, size_t ofs, size_t size,
                                  int elem_size_lg2, upb_arena* arena);
bool _upb_array_append_accessor2(void* msg, size_t ofs, int elem_size_lg2,
                                 const void* value, upb_arena* arena);

size_t _upb_msg_map_size(const upb_msg* msg, size_t ofs);
bool _upb_msg_map_get(const upb_msg* msg, size_t ofs, const void* key,
                      size_t key_size, void* val, size_t val_size);
void* _upb_msg_map_next(const upb_msg* msg, size_t ofs, size_t* iter);
bool _upb_msg_map_set(upb_msg* msg, size_t ofs, const void* key,
                      size_t key_size, void* val, size_t val_size,
                      upb_arena* arena);
bool _upb_msg_map_delete(upb_msg* msg, size_t ofs, const void* key,
                         size_t key_size);
void _upb_msg_map_clear(upb_msg* msg, size_t ofs);
void _upb_msg_map_key(const void* msg, void* key, size_t size);
void _upb_msg_map_value(const void* msg, void* val, size_t size);
void _upb_msg_map_set_value(void* msg, const void* val, size_t size);

bool _upb_decode(const char* buf, size_t size, upb_msg* msg,
                 const upb_msglayout* l, upb_arena* arena, int options);
static inline bool upb_decode(const char* buf, size_t size, upb_msg* msg,
                              const upb_msglayout* l, upb_arena* arena) {
  return _upb_decode(buf, size, msg, l, arena, 0);
}
char* upb_encode(const void* msg, const upb_msglayout* l, upb_arena* arena,
                 size_t* size);

#ifdef __cplusplus
}
#endif
#endif
