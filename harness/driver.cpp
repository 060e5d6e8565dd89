// Conformance driver: executes scenarios against liblightgrep's public C API
// and records what it observed, one JSON line per scenario.
//
// Input: one operation per line, tokens separated by blanks, byte strings in
// hex ("-" is the empty string, "!" a null pointer).
//   S id                                   begin scenario
//   fsm f
//   pat p hexpat fixed ci uni              lg_parse_pattern into handle p
//   patslice p hexbuf len fixed ci uni     lg_parse_pattern_slice
//   patnoerr p hexpat fixed ci uni         same as pat with err == NULL
//   add f p hexenc useridx                 lg_add_pattern
//   addnoerr f p hexenc useridx
//   plist f hextext hexsrc encs(,-sep hex) fixed ci uni
//   plistnoerr ...
//   fcount f / pcount g / finfo f i / pinfo g i / finfos f / pinfos g
//   prog g f depth
//   write b g / read g b / readcut g b len / wsame b1 b2
//   ctx c g / dctx c / dprog g / dfsm f / dpat p
//   search c off hex / starts c off hex / resolve c off hex / close c / reset c
//   search0.. variants with a null callback
//   dec d / win d hexbuf doff hb he hexenc pre post / hctx d hexbuf doff hb he hexenc n repl
//   ids hexname
//   dbuf b / ddec d
//   end                                    drop everything; what is lost if all is done again?
//   E                                      end scenario
#include "lightgrep/api.h"
#include "lightgrep/util.h"

#include <unistd.h>
#include <cstddef>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include <malloc.h>
#include <new>

// How much memory does a search take, at most? Counted where no sanitizer does.
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
static thread_local long taken = 0, most = 0;
void* operator new(size_t n) {
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  taken += malloc_usable_size(p);
  if (taken > most) most = taken;
  return p;
}
void operator delete(void* p) noexcept {
  if (p) taken -= malloc_usable_size(p);
  std::free(p);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
static void startCount() { taken = most = 0; }
static long counted() { return most; }
#else
static void startCount() {}
static long counted() { return 0; }
#endif

using std::string;
using std::vector;

static string unhex(const string& h) {
  string r;
  if (h == "-") return r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) {
    r.push_back(char(std::stoi(h.substr(i, 2), nullptr, 16)));
  }
  return r;
}

static string jstr(const char* s) {
  if (!s) return "null";
  std::ostringstream o;
  o << '"';
  for (; *s; ++s) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') o << '\\' << c;
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o << b; }
    else o << c;
  }
  o << '"';
  return o.str();
}

// an exactly-sized heap copy, so that over-reads are visible to a sanitizer
struct Buf {
  std::unique_ptr<char[]> p;
  size_t n;
  explicit Buf(const string& s): p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); }
  const char* b() const { return p.get(); }
  const char* e() const { return p.get() + n; }
};

struct CStr {
  std::unique_ptr<char[]> p;
  bool null;
  explicit CStr(const string& tok): null(tok == "!") {
    if (!null) {
      const string s(unhex(tok));
      p.reset(new char[s.size() + 1]);
      memcpy(p.get(), s.data(), s.size());
      p[s.size()] = 0;
    }
  }
  const char* c() const { return null ? nullptr : p.get(); }
};

struct Hits { std::ostringstream o; int n = 0; };

static void cb(void* ud, const LG_SearchHit* const h) {
  Hits* x = static_cast<Hits*>(ud);
  x->o << (x->n++ ? "," : "") << '[' << h->Start << ',' << h->End << ',' << h->KeywordIndex << ']';
}

static string errs(LG_Error* e) {
  std::ostringstream o;
  o << "[";
  for (LG_Error* x = e; x; x = x->Next) {
    o << (x == e ? "" : ",") << "{\"msg\":" << jstr(x->Message) << ",\"pat\":" << jstr(x->Pattern)
      << ",\"enc\":" << jstr(x->EncodingChain) << ",\"src\":" << jstr(x->Source) << ",\"idx\":" << x->Index << "}";
  }
  o << "]";
  lg_free_error(e);
  return o.str();
}

struct World {
  std::map<string, LG_HFSM> fsms;
  std::map<string, LG_HPATTERN> pats;
  std::map<string, LG_HPROGRAM> progs;
  std::map<string, LG_HCONTEXT> ctxs;
  std::map<string, LG_HDECODER> decs;
  std::map<string, std::unique_ptr<Buf>> bufs;
  ~World() {
    for (auto& x : ctxs) lg_destroy_context(x.second);
    for (auto& x : progs) lg_destroy_program(x.second);
    for (auto& x : fsms) lg_destroy_fsm(x.second);
    for (auto& x : pats) lg_destroy_pattern(x.second);
    for (auto& x : decs) lg_destroy_decoder(x.second);
  }
};

template <class M> typename M::mapped_type get(M& m, const string& k) {
  auto i = m.find(k);
  return i == m.end() ? nullptr : i->second;
}

static string info(const LG_PatternInfo* p) {
  std::ostringstream o;
  o << "[" << jstr(p->Pattern) << "," << jstr(p->EncodingChain) << "," << p->UserIndex << "]";
  return o.str();
}

static string runctx(World& w, const vector<string>& t) {
  const string& op = t[0];
  LG_HCONTEXT c = get(w.ctxs, t[1]);
  std::ostringstream o;
  if (!c) return "{\"fail\":1}";
  Hits h;
  const bool null = op.back() == '0';
  LG_HITCALLBACK_FN fn = null ? nullptr : cb;
  if (op == "close" || op == "close0") {
    lg_closeout_search(c, &h, fn);
    o << "{\"hits\":[" << h.o.str() << "]}";
  }
  else if (op == "reset") {
    lg_reset_context(c);
    o << "{\"hits\":[]}";
  }
  else {
    const Buf x(unhex(t[3] == "!" ? "-" : t[3]));
    const char* const b = t[3] == "!" ? nullptr : x.b();
    const char* const e = t[3] == "!" ? nullptr : x.e();
    uint64_t off = std::stoull(t[2]), r = 0;
    startCount();
    if (op.compare(0, 6, "search") == 0) r = lg_search(c, b, e, off, &h, fn);
    else if (op.compare(0, 6, "starts") == 0) lg_starts_with(c, b, e, off, &h, fn);
    else r = lg_search_resolve(c, b, e, off, &h, fn);
    const long mem = counted();
    o << "{\"hits\":[" << h.o.str() << "],\"ret\":" << r << ",\"mem\":" << mem << "}";
  }
  return o.str();
}

static string run(World& w, const vector<string>& t, const string& line) {
  const string& op = t[0];
  std::ostringstream o;
  // nothing can be done with an object which could not be made
  const string prog = op == "pcount" || op == "pinfos" || op == "dprog" ? t[1] : op == "write" || op == "ctx" ? t[2] : "";
  if (!prog.empty() && !get(w.progs, prog)) return "{\"fail\":1}";
  if ((op == "read" || op == "readcut" || op == "wsame") && !w.bufs.count(t[2])) return "{\"fail\":1}";
  if (op == "wsame" && !w.bufs.count(t[1])) return "{\"fail\":1}";
  if (op == "dctx" && !get(w.ctxs, t[1])) return "{\"fail\":1}";
  const string fsm = op == "fcount" || op == "finfos" || op == "plist" || op == "plistnoerr" || op == "dfsm" ? t[1] : op == "prog" ? t[2] : "";
  if (!fsm.empty() && !get(w.fsms, fsm)) return "{\"fail\":1}";
  if ((op == "win" || op == "hctx" || op == "ddec") && !get(w.decs, t[1])) return "{\"fail\":1}";
  if (op == "dpat" && !get(w.pats, t[1])) return "{\"fail\":1}";
  if (op == "dbuf" && !w.bufs.count(t[1])) return "{\"fail\":1}";
  if (op == "fsm") {
    LG_HFSM f = lg_create_fsm(t.size() > 2 ? std::stoul(t[2]) : 0, 0);
    w.fsms[t[1]] = f;
    o << "{\"ok\":" << (f ? 1 : 0) << "}";
  }
  else if (op == "pat" || op == "patnoerr" || op == "patslice") {
    LG_HPATTERN& p = w.pats[t[1]];
    if (!p) p = lg_create_pattern();
    const bool slice = op == "patslice";
    const int k = slice ? 4 : 3;
    LG_KeyOptions ko{char(std::stoi(t[k])), char(std::stoi(t[k+1])), char(std::stoi(t[k+2]))};
    LG_Error* e = nullptr;
    LG_Error** pe = op == "patnoerr" ? nullptr : &e;
    int r;
    if (slice) {
      Buf b(unhex(t[2]));
      r = lg_parse_pattern_slice(p, b.b(), std::stoul(t[3]), &ko, pe);
    }
    else {
      CStr s(t[2]);
      r = lg_parse_pattern(p, s.c(), &ko, pe);
    }
    o << "{\"ret\":" << r << ",\"errs\":" << errs(e) << "}";
  }
  else if (op == "add" || op == "addnoerr") {
    LG_Error* e = nullptr;
    CStr enc(t[3]);
    int r = lg_add_pattern(get(w.fsms, t[1]), get(w.pats, t[2]), enc.c(), std::stoull(t[4]),
                           op == "add" ? &e : nullptr);
    o << "{\"ret\":" << r << ",\"errs\":" << errs(e) << "}";
  }
  else if (op == "plist" || op == "plistnoerr") {
    LG_Error* e = nullptr;
    CStr text(t[2]), src(t[3]);
    vector<CStr> encs;
    std::stringstream es(t[4]);
    string x;
    if (t[4] != ".") while (std::getline(es, x, ',')) encs.emplace_back(x);
    vector<const char*> ep;
    for (auto& q : encs) ep.push_back(q.c());
    LG_KeyOptions ko{char(std::stoi(t[5])), char(std::stoi(t[6])), char(std::stoi(t[7]))};
    int r = lg_add_pattern_list(get(w.fsms, t[1]), text.c(), src.c(), ep.data(), ep.size(), &ko,
                                op == "plist" ? &e : nullptr);
    o << "{\"ret\":" << r << ",\"n\":" << lg_fsm_pattern_count(get(w.fsms, t[1])) << ",\"errs\":" << errs(e) << "}";
  }
  else if (op == "fcount") {
    o << "{\"n\":" << lg_fsm_pattern_count(get(w.fsms, t[1])) << "}";
  }
  else if (op == "pcount") {
    o << "{\"n\":" << lg_prog_pattern_count(get(w.progs, t[1])) << "}";
  }
  else if (op == "finfos") {
    LG_HFSM f = get(w.fsms, t[1]);
    o << "{\"infos\":[";
    for (unsigned i = 0; i < lg_fsm_pattern_count(f); ++i) o << (i ? "," : "") << info(lg_fsm_pattern_info(f, i));
    o << "]}";
  }
  else if (op == "pinfos") {
    LG_HPROGRAM f = get(w.progs, t[1]);
    o << "{\"infos\":[";
    if (f) for (unsigned i = 0; i < lg_prog_pattern_count(f); ++i) o << (i ? "," : "") << info(lg_prog_pattern_info(f, i));
    o << "]}";
  }
  else if (op == "prog") {
    LG_ProgramOptions po{uint32_t(std::stoul(t[3]))};
    LG_HPROGRAM g = lg_create_program(get(w.fsms, t[2]), &po);
    if (g) w.progs[t[1]] = g;
    o << "{\"ok\":" << (g ? 1 : 0) << ",\"size\":" << (g ? lg_program_size(g) : 0) << "}";
  }
  else if (op == "write") {
    LG_HPROGRAM g = get(w.progs, t[2]);
    // canary bytes past the declared size must survive
    const unsigned n = lg_program_size(g);
    string s(n + 16, '\xA5');
    lg_write_program(g, &s[0]);
    bool intact = s.substr(n) == string(16, '\xA5');
    w.bufs[t[1]].reset(new Buf(s.substr(0, n)));
    o << "{\"size\":" << n << ",\"intact\":" << (intact ? 1 : 0) << "}";
  }
  else if (op == "read" || op == "readcut") {
    Buf& b = *w.bufs[t[2]];
    LG_HPROGRAM g;
    if (op == "readcut") {
      long n = std::stol(t[3]);
      Buf cut(string(b.b(), n < 0 ? b.n + n : n));
      g = lg_read_program(cut.b(), cut.n);
      if (g) lg_destroy_program(g);
      o << "{\"ok\":" << (g ? 1 : 0) << "}";
    }
    else {
      g = lg_read_program(b.b(), b.n);
      if (g) w.progs[t[1]] = g;
      o << "{\"ok\":" << (g ? 1 : 0) << "}";
    }
  }
  else if (op == "wsame") {
    Buf &a = *w.bufs[t[1]], &b = *w.bufs[t[2]];
    o << "{\"same\":" << (a.n == b.n && !memcmp(a.b(), b.b(), a.n) ? 1 : 0) << "}";
  }
  else if (op == "ctx") {
    LG_HPROGRAM g = get(w.progs, t[2]);
    LG_HCONTEXT c = g ? lg_create_context(g, nullptr) : nullptr;
    if (c) w.ctxs[t[1]] = c;
    o << "{\"ok\":" << (c ? 1 : 0) << "}";
  }
  else if (op == "dctx") { lg_destroy_context(w.ctxs[t[1]]); w.ctxs.erase(t[1]); o << "{}"; }
  else if (op == "dprog") { lg_destroy_program(w.progs[t[1]]); w.progs.erase(t[1]); o << "{}"; }
  else if (op == "dfsm") { lg_destroy_fsm(w.fsms[t[1]]); w.fsms.erase(t[1]); o << "{}"; }
  else if (op == "dpat") { lg_destroy_pattern(w.pats[t[1]]); w.pats.erase(t[1]); o << "{}"; }
  else if (op == "par") {
    // par <n> then n context scripts separated by '|', each "ctxop;ctxop;..."
    // with ',' for blanks: run in n threads at once
    std::stringstream ss(line.substr(4));
    string script;
    vector<string> outs;
    vector<vector<string>> scripts;
    while (std::getline(ss, script, '|')) {
      std::stringstream so(script);
      string one;
      scripts.emplace_back();
      while (std::getline(so, one, ';')) scripts.back().push_back(one);
    }
    outs.resize(scripts.size());
    vector<std::thread> th;
    for (size_t i = 0; i < scripts.size(); ++i) {
      th.emplace_back([&, i]() {
        string r;
        for (const string& s : scripts[i]) {
          std::stringstream so(s);
          vector<string> tk;
          string x;
          while (std::getline(so, x, ',')) tk.push_back(x);
          r += (r.empty() ? "" : ",") + runctx(w, tk);
        }
        outs[i] = r;
      });
    }
    for (auto& x : th) x.join();
    o << "{\"par\":[";
    for (size_t i = 0; i < outs.size(); ++i) o << (i ? "," : "") << "[" << outs[i] << "]";
    o << "]}";
  }
  else if (op == "dbuf") { w.bufs.erase(t[1]); o << "{}"; }
  else if (op == "ddec") { lg_destroy_decoder(w.decs[t[1]]); w.decs.erase(t[1]); o << "{}"; }
  else if (op == "dec") { w.decs[t[1]] = lg_create_decoder(); o << "{\"ok\":1}"; }
  else if (op == "win") {
    Buf b(unhex(t[2]));
    LG_Window hit{std::stoull(t[4]), std::stoull(t[5])}, dh{0, 0};
    CStr enc(t[6]);
    int32_t* chars = nullptr;
    size_t* offs = nullptr;
    size_t clen = 0;
    LG_Error* e = nullptr;
    unsigned bad = lg_read_window(get(w.decs, t[1]), b.b(), b.e(), std::stoull(t[3]), &hit, enc.c(),
      std::stoul(t[7]), std::stoul(t[8]), &chars, &offs, &clen, &dh, &e);
    o << "{\"bad\":" << bad << ",\"cps\":[";
    for (size_t i = 0; i < clen; ++i) o << (i ? "," : "") << chars[i];
    o << "],\"offs\":[";
    for (size_t i = 0; i < clen; ++i) o << (i ? "," : "") << offs[i];
    o << "],\"hb\":" << dh.begin << ",\"he\":" << dh.end << ",\"errs\":" << errs(e) << "}";
    lg_free_window_characters(chars);
    lg_free_window_offsets(offs);
  }
  else if (op == "hctx") {
    Buf b(unhex(t[2]));
    LG_Window hit{std::stoull(t[4]), std::stoull(t[5])}, dh{0, 0}, outer{0, 0};
    CStr enc(t[6]);
    const char* utf8 = nullptr;
    LG_Error* e = nullptr;
    unsigned bad = lg_hit_context(get(w.decs, t[1]), b.b(), b.e(), std::stoull(t[3]), &hit, enc.c(),
      std::stoul(t[7]), std::stoul(t[8]), &utf8, &outer, &dh, &e);
    o << "{\"bad\":" << bad << ",\"utf8\":[";
    if (utf8) for (const unsigned char* s = (const unsigned char*) utf8; *s; ++s) o << (s == (const unsigned char*) utf8 ? "" : ",") << int(*s);
    o << "],\"ob\":" << outer.begin << ",\"oe\":" << outer.end << ",\"hb\":" << dh.begin << ",\"he\":" << dh.end
      << ",\"errs\":" << errs(e) << "}";
    lg_free_hit_context_string(utf8);
  }
  else if (op == "ids") {
    CStr n(t[1]);
    o << "{\"char\":" << lg_get_char_transform_id(n.c()) << ",\"enc\":" << lg_get_encoding_id(n.c())
      << ",\"byte\":" << lg_get_byte_transform_id(n.c()) << "}";
  }
  else {
    return runctx(w, t);
  }
  return o.str();
}

// What a scenario leaves behind, done once more. Zero is good; what is kept for
// later is not left behind every time.
static long lost(const vector<string>& lines) {
#if defined(__SANITIZE_ADDRESS__)
  long least = -1;
  for (int i = 0; i < 4 && least; ++i) {
    const long before = __sanitizer_get_current_allocated_bytes();
    {
      World w;
      for (const string& line : lines) {
        std::stringstream ss(line);
        vector<string> t;
        string x;
        while (ss >> x) t.push_back(x);
        run(w, t, line);
      }
    }
    const long left = long(__sanitizer_get_current_allocated_bytes()) - before;
    if (left <= 0) return 0;
    if (least < 0 || left < least) least = left;
  }
  return least;
#else
  return 0;
#endif
}

int main() {
  std::ios::sync_with_stdio(false);
  string line;
  std::unique_ptr<World> w;
  string id, acc;
  vector<string> lines;
  const char* const limit = getenv("SCENARIO_SECONDS");
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    std::stringstream ss(line);
    vector<string> t;
    string x;
    while (ss >> x) t.push_back(x);
    if (t[0] == "S") {
      id = t[1];
      acc.clear();
      lines.clear();
      if (limit) alarm(atoi(limit));
      w.reset(new World);
    }
    else if (t[0] == "end") {
      w.reset();
      acc += (acc.empty() ? "" : ",") + ("{\"lost\":" + std::to_string(lost(lines)) + "}");
    }
    else if (t[0] == "E") {
      w.reset();
      std::cout << "{\"id\":" << id << ",\"obs\":[" << acc << "]}\n" << std::flush;
    }
    else {
      lines.push_back(line);
      acc += (acc.empty() ? "" : ",") + run(*w, t, line);
    }
  }
  return 0;
}
