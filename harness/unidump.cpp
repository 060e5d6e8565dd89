// Facts about Unicode and legacy encodings, straight from ICU: the trusted data
// of the specification.  Does not use lightgrep.
//
// One command per line on stdin, one JSON value per line on stdout:
//   fold            [[cp,[variants...]],...]
//   prop HEX        {"ok":0|1,"inv":[...]}       pattern such as \p{Lu}, UTF-8 in hex
//   name HEX        {"cp":n}                     -1 if there is none
//   enc NAME        {"ok":0|1,"inv":[...],"tab":{cp:"hex",...}}
//   dec NAME HEX,..  [cp,...]                 -1 if the bytes are not one character
//   aliases         {lower-case alias:[canonical names...],...}
#include <unicode/uchar.h>
#include <unicode/ucnv.h>
#include <unicode/uset.h>
#include <unicode/ustring.h>
#include <unicode/utf16.h>

#include <algorithm>
#include <cctype>
#include <cstring>
#include <cstdio>
#include <iostream>
#include <map>
#include <set>
#include <string>
#include <vector>

using std::string;

static string unhex(const string& h) {
  string r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back(char(std::stoi(h.substr(i, 2), nullptr, 16)));
  return r;
}

static void inv(const USet* s) {
  std::cout << "[";
  const int n = uset_getItemCount(s);
  bool first = true;
  for (int i = 0; i < n; ++i) {
    UChar32 a, b;
    UErrorCode e = U_ZERO_ERROR;
    UChar str[64];
    if (uset_getItem(s, i, &a, &b, str, 64, &e) != 0) continue;   // a string
    std::cout << (first ? "" : ",") << a << "," << b + 1;
    first = false;
  }
  std::cout << "]";
}

int main() {
  std::ios::sync_with_stdio(false);
  string line;
  while (std::getline(std::cin, line)) {
    const string cmd = line.substr(0, line.find(' '));
    const string arg = line.find(' ') == string::npos ? "" : line.substr(line.find(' ') + 1);
    UErrorCode e = U_ZERO_ERROR;
    if (cmd == "fold") {
      std::cout << "[";
      bool first = true;
      USet* s = uset_openEmpty();
      for (UChar32 c = 0; c < 0x110000; ++c) {
        uset_clear(s);
        uset_add(s, c);
        uset_closeOver(s, USET_CASE_INSENSITIVE);
        string v;
        const int n = uset_getItemCount(s);
        for (int i = 0; i < n; ++i) {
          UChar32 a, b;
          UChar str[64];
          e = U_ZERO_ERROR;
          if (uset_getItem(s, i, &a, &b, str, 64, &e) != 0) continue;
          for (UChar32 d = a; d <= b; ++d) if (d != c) v += (v.empty() ? "" : ",") + std::to_string(d);
        }
        if (!v.empty()) {
          std::cout << (first ? "" : ",") << "[" << c << ",[" << v << "]]";
          first = false;
        }
      }
      uset_close(s);
      std::cout << "]\n";
    }
    else if (cmd == "prop") {
      const string p = unhex(arg);
      std::vector<UChar> u(p.size() + 1);
      int32_t len = 0;
      u_strFromUTF8(u.data(), u.size(), &len, p.data(), p.size(), &e);
      USet* s = U_SUCCESS(e) ? uset_openPattern(u.data(), len, &e) : nullptr;
      std::cout << "{\"ok\":" << (U_SUCCESS(e) ? 1 : 0) << ",\"inv\":";
      if (U_SUCCESS(e)) inv(s); else std::cout << "[]";
      std::cout << "}\n";
      if (s) uset_close(s);
    }
    else if (cmd == "name") {
      const UChar32 c = u_charFromName(U_UNICODE_CHAR_NAME, unhex(arg).c_str(), &e);
      std::cout << "{\"cp\":" << (U_SUCCESS(e) ? c : -1) << "}\n";
    }
    else if (cmd == "enc") {
      UConverter* v = ucnv_open(arg.c_str(), &e);
      if (U_FAILURE(e)) { std::cout << "{\"ok\":0,\"inv\":[],\"tab\":{}}\n" << std::flush; continue; }
      ucnv_setFromUCallBack(v, UCNV_FROM_U_CALLBACK_STOP, nullptr, nullptr, nullptr, &e);
      USet* s = uset_openEmpty();
      ucnv_getUnicodeSet(v, s, UCNV_ROUNDTRIP_SET, &e);
      std::cout << "{\"ok\":1,\"inv\":";
      inv(s);
      std::cout << ",\"tab\":{";
      bool first = true;
      for (UChar32 c = 0; c < 0x110000; ++c) {
        if (!uset_contains(s, c)) continue;
        UChar u[2];
        int n = 0;
        if (c < 0x10000) u[n++] = c; else { u[n++] = 0xD7C0 + (c >> 10); u[n++] = 0xDC00 | (c & 0x3FF); }
        char out[64];
        e = U_ZERO_ERROR;
        ucnv_resetFromUnicode(v);
        const int32_t k = ucnv_fromUChars(v, out, 64, u, n, &e);
        if (U_FAILURE(e)) continue;
        std::cout << (first ? "" : ",") << "\"" << c << "\":\"";
        for (int i = 0; i < k; ++i) { char b[3]; snprintf(b, 3, "%02x", (unsigned char) out[i]); std::cout << b; }
        std::cout << "\"";
        first = false;
      }
      std::cout << "}}\n";
      uset_close(s);
      ucnv_close(v);
    }
    else if (cmd == "dec") {
      const size_t sp = arg.find(' ');
      UConverter* v = ucnv_open(arg.substr(0, sp).c_str(), &e);
      if (U_SUCCESS(e)) ucnv_setToUCallBack(v, UCNV_TO_U_CALLBACK_STOP, nullptr, nullptr, nullptr, &e);
      std::cout << "[";
      for (size_t i = sp + 1, j; U_SUCCESS(e) && i < arg.size(); i = j + 1) {
        j = std::min(arg.find(',', i), arg.size());
        const string x = unhex(arg.substr(i, j - i));
        UChar u[8];
        UErrorCode f = U_ZERO_ERROR;
        ucnv_resetToUnicode(v);
        const int32_t k = ucnv_toUChars(v, u, 8, x.data(), x.size(), &f);
        int32_t cp = -1;
        if (U_SUCCESS(f)) {
          if (k == 1 && !U16_IS_SURROGATE(u[0])) cp = u[0];
          else if (k == 2 && U16_IS_LEAD(u[0]) && U16_IS_TRAIL(u[1])) cp = U16_GET_SUPPLEMENTARY(u[0], u[1]);
        }
        std::cout << (i == sp + 1 ? "" : ",") << cp;
      }
      std::cout << "]\n";
      if (v) ucnv_close(v);
    }
    else if (cmd == "aliases") {
      // what a name means: the most preferred of the standards which know it
      // decides, as src/enc says it should
      const char* const stds[] = {"UTR22", "IANA", "MIME", "IBM", "WINDOWS", "JAVA", ""};
      std::map<string, std::vector<string>> m;
      for (int32_t i = 0; i < ucnv_countAvailable(); ++i) {
        const char* name = ucnv_getAvailableName(i);
        e = U_ZERO_ERROR;
        const int n = ucnv_countAliases(name, &e);
        for (int j = -1; j < n; ++j) {
          e = U_ZERO_ERROR;
          const string orig = j < 0 ? name : ucnv_getAlias(name, j, &e);
          string a = orig;
          for (char& c : a) c = tolower((unsigned char) c);
          auto& v = m[a];
          if (std::find(v.begin(), v.end(), name) != v.end()) continue;
          const char* best = nullptr;
          for (const char* s : stds) {
            e = U_ZERO_ERROR;
            best = ucnv_getCanonicalName(orig.c_str(), s, &e);
            if (best && U_SUCCESS(e)) break;
            best = nullptr;
          }
          // the one it means comes first
          if (best && !strcmp(best, name)) v.insert(v.begin(), name);
          else v.push_back(name);
        }
      }
      std::cout << "{";
      bool f1 = true;
      for (auto& x : m) {
        std::cout << (f1 ? "" : ",") << "\"" << x.first << "\":[";
        f1 = false;
        bool f2 = true;
        for (auto& y : x.second) { std::cout << (f2 ? "" : ",") << "\"" << y << "\""; f2 = false; }
        std::cout << "]";
      }
      std::cout << "}\n";
    }
    std::cout << std::flush;
  }
  return 0;
}
