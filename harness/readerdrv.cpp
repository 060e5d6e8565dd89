// Stands between the program and the functions by which it reads and searches:
// records each event, and holds the two threads to the order of a given
// schedule (a behaviour of spec/Reader.tla).
//   READER_LOG   file to which events are written
//   READER_PLAN  a string over F, f, S, s: the order to follow; after that, or
//                when it cannot be followed, the threads run freely
//   READER_FAULT J:P: reading the J-th file fails once P of its bytes are read
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <string>
#include <vector>

#include <fcntl.h>
#include <unistd.h>

#include "lightgrep/api.h"

namespace {
std::mutex M;
std::condition_variable CV;
std::string Plan = std::getenv("READER_PLAN") ? std::getenv("READER_PLAN") : "";
size_t At = 0;
bool Free = false;
FILE* Log = nullptr;
struct Region { const char* b; const char* e; };
std::vector<Region> Bufs;
long FaultFile = -1, FaultPos = -1, File = 0, Read = 0;

void open() {
  if (!Log) {
    const char* p = std::getenv("READER_LOG");
    Log = std::fopen(p ? p : "/dev/null", "w");
    if (const char* x = std::getenv("READER_FAULT")) {
      std::sscanf(x, "%ld:%ld", &FaultFile, &FaultPos);
    }
    setvbuf(Log, nullptr, _IOLBF, 1 << 16);
  }
}

size_t idOf(const char* b, size_t len, bool make) {
  for (size_t i = 0; i < Bufs.size(); ++i) {
    if (Bufs[i].b <= b && b < Bufs[i].e) {
      return i + 1;
    }
  }
  if (!make) {
    return 0;
  }
  Bufs.push_back({b, b + len});
  return Bufs.size();
}

// waits for the turn of event k, then records it
template <class F> void turn(char k, F&& f) {
  std::unique_lock<std::mutex> l(M);
  open();
  const auto mine = [k]() { return Free || At >= Plan.size() || Plan[At] == k; };
  if (!CV.wait_for(l, std::chrono::milliseconds(400), mine)) {
    Free = true;
    std::fputs("{\"t\":\"free\"}\n", Log);
  }
  if (!Free && At < Plan.size()) {
    ++At;
  }
  f();
  CV.notify_all();
}

std::string hex(const char* b, size_t n) {
  static const char* d = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < n; ++i) {
    s += d[(unsigned char)b[i] >> 4];
    s += d[b[i] & 15];
  }
  return s;
}
}

extern "C" {
size_t __real_fread(void*, size_t, size_t, FILE*);
uint64_t __real_lg_search(LG_HCONTEXT, const char*, const char*, const uint64_t, void*, LG_HITCALLBACK_FN);
void __real_lg_closeout_search(LG_HCONTEXT, void*, LG_HITCALLBACK_FN);

size_t __wrap_fread(void* p, size_t sz, size_t n, FILE* f) {
  char* b = static_cast<char*>(p);
  size_t id = 0;
  turn('F', [&]() {
    id = idOf(b, sz * n, true);
    std::memset(b, 0xEE, sz * n);
    std::fprintf(Log, "{\"t\":\"F\",\"buf\":%zu}\n", id);
  });
  size_t r;
  char ev = 'f';
  if (File == FaultFile && Read + (long)(sz * n) > FaultPos) {
    // what there is before, and then an error: no directory can be read
    r = FaultPos > Read ? __real_fread(p, 1, FaultPos - Read, f) : 0;
    const int dir = ::open("/", O_RDONLY | O_DIRECTORY);
    dup2(dir, fileno(f));
    close(dir);
    r = (r + __real_fread(b + r, 1, sz * n - r, f)) / sz;
    ev = 'x';
  }
  else {
    r = __real_fread(p, sz, n, f);
  }
  turn(ev, [&]() {
    Read += r * sz;
    std::fprintf(Log, "{\"t\":\"%c\",\"buf\":%zu,\"n\":%zu}\n", ev, id, r * sz);
  });
  return r;
}

size_t __wrap___fread_chk(void* p, size_t, size_t sz, size_t n, FILE* f) {
  return __wrap_fread(p, sz, n, f);
}

uint64_t __wrap_lg_search(LG_HCONTEXT c, const char* b, const char* e, const uint64_t off, void* u, LG_HITCALLBACK_FN fn) {
  turn('S', [&]() {
    std::fprintf(Log, "{\"t\":\"S\",\"buf\":%zu,\"off\":%llu,\"bytes\":\"%s\"}\n", b == e ? 0 : idOf(b, 0, false),
                 (unsigned long long)off, hex(b, e - b).c_str());
  });
  uint64_t r = 0;
  turn('s', [&]() {
    r = __real_lg_search(c, b, e, off, u, fn);
    std::fprintf(Log, "{\"t\":\"s\",\"bytes\":\"%s\"}\n", hex(b, e - b).c_str());
  });
  return r;
}

void __wrap_lg_closeout_search(LG_HCONTEXT c, void* u, LG_HITCALLBACK_FN fn) {
  {
    std::lock_guard<std::mutex> l(M);
    open();
    std::fputs("{\"t\":\"close\"}\n", Log);
    ++File;
    Read = 0;
  }
  __real_lg_closeout_search(c, u, fn);
}
}
