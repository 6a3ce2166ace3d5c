#include "vault.h"

#include <cstring>
#include <vector>

namespace vault {
bool on = false;
namespace {
const size_t kS = 6, kD = 8, kE = 4;
std::unordered_set<uint64_t>*sec, *dat, *ends;

uint64_t Window(const uint8_t* p, size_t n) {
  uint64_t v = 0;
  for (size_t i = 0; i < n; i++) v = v << 8 | p[i];
  return v;
}
// Runs of equal bytes and the like say nothing.
bool Telling(const uint8_t* p, size_t n) {
  size_t distinct = 0;
  for (size_t i = 0; i < n; i++) distinct += !memchr(p, p[i], i);
  return distinct >= 4;
}
void Add(std::unordered_set<uint64_t>* s, const uint8_t* p, size_t n, size_t w) {
  for (size_t i = 0; i + w <= n; i++) {
    if (i == 200 && n > 400) i = n - 100;
    if (Telling(p + i, w)) s->insert(Window(p + i, w));
  }
}
bool In(const Bytes& b, bool secrets_only) {
  for (size_t i = 0; i + kS <= b.size(); i++) {
    if (sec->count(Window(&b[i], kS))) return true;
    if (!secrets_only && i + kD <= b.size() && dat->count(Window(&b[i], kD))) return true;
  }
  return false;
}
// In numbers written out, also the first or last bytes of a key (as "key id").
bool InNumbers(const Bytes& b, bool so) {
  if (In(b, so)) return true;
  for (size_t i = 0; i + kE <= b.size(); i++)
    if (ends->count(Window(&b[i], kE))) return true;
  return false;
}
int Hex(char c) {
  if (c >= '0' && c <= '9') return c - '0';
  c |= 32;
  return c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1;
}
Bytes Unescape(const std::string& t) {
  Bytes r;
  for (size_t i = 0; i < t.size(); i++) {
    if (t[i] != '\\' || i + 1 == t.size()) {
      r.push_back(t[i]);
      continue;
    }
    char c = t[++i];
    if (c == 'x' || c == 'X') {
      int v = 0, k = 0;
      while (k < 2 && i + 1 < t.size() && Hex(t[i + 1]) >= 0) v = v * 16 + Hex(t[++i]), k++;
      r.push_back(v);
    } else if (c >= '0' && c <= '7') {
      int v = c - '0', k = 1;
      while (k < 3 && i + 1 < t.size() && t[i + 1] >= '0' && t[i + 1] <= '7') v = v * 8 + t[++i] - '0', k++;
      r.push_back(v);
    } else {
      static const char from[] = "nrtabfv", to[] = "\n\r\t\a\b\f\v";
      const char* q = strchr(from, c);
      r.push_back(q && c ? to[q - from] : c);
    }
  }
  return r;
}
// The words of |t| (letters and digits), each with whether a minus stands before it.
std::vector<std::pair<std::string, bool>> Words(const std::string& t) {
  std::vector<std::pair<std::string, bool>> r;
  for (size_t i = 0; i < t.size();) {
    if (!isalnum((unsigned char)t[i])) { i++; continue; }
    size_t j = i;
    while (j < t.size() && isalnum((unsigned char)t[j])) j++;
    r.push_back({t.substr(i, j - i), i > 0 && t[i - 1] == '-'});
    i = j;
  }
  return r;
}
bool InHex(const std::string& t, bool so) {
  for (int odd = 0; odd < 2; odd++) {
    Bytes b;
    for (auto& wm : Words(t)) {
      std::string w = wm.first;
      if (w.size() > 2 && w[0] == '0' && (w[1] | 32) == 'x') w = w.substr(2);
      else if (w.size() > 1 && (w[0] | 32) == 'x') w = w.substr(1);
      bool hex = !w.empty();
      for (char c : w) hex = hex && Hex(c) >= 0;
      if (!hex) {
        // Hexadecimal digits after, or before, other letters.
        size_t e = w.size(), s = 0;
        while (e > 0 && Hex(w[e - 1]) >= 0) e--;
        while (s < w.size() && Hex(w[s]) >= 0) s++;
        for (const std::string& part : {w.substr(e), w.substr(0, s)})
          for (size_t off = 0; off < 2; off++) {
            Bytes x;
            for (size_t i = off; i + 1 < part.size(); i += 2) x.push_back(Hex(part[i]) * 16 + Hex(part[i + 1]));
            if (InNumbers(x, so)) return true;
          }
        if (InNumbers(b, so)) return true;
        b.clear();
        continue;
      }
      size_t i = 0;
      if (w.size() == 1 || (w.size() % 2 && odd == 0)) b.push_back(Hex(w[i++]));
      else if (w.size() % 2) i = 1;
      else if (odd && w.size() > 12) i = 1;
      for (; i + 1 < w.size(); i += 2) b.push_back(Hex(w[i]) * 16 + Hex(w[i + 1]));
    }
    if (InNumbers(b, so)) return true;
  }
  return false;
}
bool InDecimal(const std::string& t, bool so) {
  Bytes b;
  for (auto& wm : Words(t)) {
    const std::string& w = wm.first;
    int v = 0;
    bool num = w.size() <= 3;
    for (char c : w) num = num && c >= '0' && c <= '9';
    if (num) v = atoi(w.c_str());
    if (!num || v > 255) {
      if (InNumbers(b, so)) return true;
      b.clear();
      continue;
    }
    b.push_back(wm.second ? -v : v);
  }
  return InNumbers(b, so);
}
bool InBase64(const std::string& t, bool so) {
  auto val = [](char c) {
    if (c >= 'A' && c <= 'Z') return c - 'A';
    if (c >= 'a' && c <= 'z') return c - 'a' + 26;
    if (c >= '0' && c <= '9') return c - '0' + 52;
    if (c == '+' || c == '-') return 62;
    if (c == '/' || c == '_') return 63;
    return -1;
  };
  for (size_t i = 0; i < t.size();) {
    if (val(t[i]) < 0) { i++; continue; }
    size_t j = i;
    while (j < t.size() && val(t[j]) >= 0) j++;
    for (size_t off = 0; off < 4 && i + off + 8 <= j; off++) {
      Bytes b;
      uint32_t acc = 0;
      int bits = 0;
      for (size_t k = i + off; k < j; k++) {
        acc = acc << 6 | val(t[k]);
        bits += 6;
        if (bits >= 8) b.push_back(acc >> (bits -= 8));
      }
      if (In(b, so)) return true;
    }
    i = j;
  }
  return false;
}
}  // namespace

void Begin() {
  if (!sec) {
    sec = new std::unordered_set<uint64_t>;
    dat = new std::unordered_set<uint64_t>;
    ends = new std::unordered_set<uint64_t>;
  }
  sec->clear();
  dat->clear();
  ends->clear();
  on = true;
  S->salted = true;
}
void End() { on = false; }
void Secret(const uint8_t* p, size_t n) { Add(sec, p, n, kS); }
void Ends(const Bytes& b) {
  if (b.size() < 8) return;
  for (const uint8_t* p : {b.data(), b.data() + b.size() - kE})
    if (Telling(p, kE)) ends->insert(Window(p, kE));
}
void Data(const uint8_t* p, size_t n) { Add(dat, p, n, kD); }
bool Shows(const std::string& text, std::string* what, bool so) {
  if (!on || text.size() < kS) return false;
  if (In(Bytes(text.begin(), text.end()), so)) *what = "as it is";
  else if (text.find('\\') != std::string::npos && In(Unescape(text), so)) *what = "escaped";
  else if (InHex(text, so)) *what = "in hexadecimal";
  else if (InDecimal(text, so)) *what = "in decimal";
  else if (InBase64(text, so)) *what = "in base64";
  else return false;
  return true;
}
void Message(const std::string& text, const char* where, bool so) {
  if (!on) return;
  S->Count("texts_searched");
  std::string what;
  if (Shows(text, &what, so))
    S->Note("secret-shown", std::string(where) + " shows a secret, a key, a token or application data (" + what + ")");
}
}  // namespace vault
