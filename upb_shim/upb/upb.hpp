#ifndef VERIF_UPB_SHIM_UPB_HPP_
#define VERIF_UPB_SHIM_UPB_HPP_
#include "upb/msg_internal.h"
namespace upb {
class Arena {
 public:
  Arena() : ptr_(upb_arena_new()) {}
  ~Arena() { upb_arena_free(ptr_); }
  Arena(const Arena&) = delete;
  Arena& operator=(const Arena&) = delete;
  upb_arena* ptr() { return ptr_; }

 private:
  upb_arena* ptr_;
};
}  // namespace upb
#endif
