// What must never be seen outside: the secrets of a run, and a search for them
// (as they are, or in one of the usual printable forms) in the texts the code
// under test produces.
#pragma once
#include <string>
#include <unordered_set>

#include "core.h"

namespace vault {
using sim::Bytes;
void Begin();  // of a run that is to be watched
void End();
extern bool on;
// Traffic secrets, keys, tokens: no six bytes in a row may show, nor the four at
// either end of a key as numbers.
void Secret(const uint8_t* p, size_t n);
void Ends(const Bytes& b);
inline void Secret(const Bytes& b) {
  if (!on) return;
  Secret(b.data(), b.size());
  Ends(b);
}
inline void Secret(const std::string& s) { if (on) Secret((const uint8_t*)s.data(), s.size()); }
// Application data and the like: no eight bytes in a row.
void Data(const uint8_t* p, size_t n);
inline void Data(const Bytes& b) { if (on) Data(b.data(), b.size()); }
// True if |text| shows some of it. |what| names the form.
bool Shows(const std::string& text, std::string* what, bool secrets_only = false);
// Records a violation if |text| shows something.
void Message(const std::string& text, const char* where, bool secrets_only = false);
}  // namespace vault
