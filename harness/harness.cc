// Conformance driver for dingo-libexpr.
//
// Reads scenarios of commands, carries them out on the real library through its public interface only, and prints
// one event (a JSON object) per command with everything the specification (spec/Trace.tla) needs to judge it.
//
//   harness FILE            run the scenarios of FILE one after another
//   harness -t N FILE       run the scenarios in N threads at the same time, each thread its share, each scenario
//                           several times; events are printed once all threads are done
//
// A scenario starts with "S <id>", every other line is one command.  Events are written immediately, so the caller
// sees which command did not come back when the process dies.
//
// Operands are written TYPE:HEX, the bytes as in the specification (numbers least significant byte first); rows are
// lists of operands separated by commas, "-" is the empty row.
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>

#include <any>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "expr/codec.h"
#include "expr/exception.h"
#include "expr/operand.h"
#include "expr/runner.h"
#include "expr/types.h"
#include "expr/utils.h"
#include "rel/rel_runner.h"

using namespace dingodb::expr;
using dingodb::rel::RelRunner;

// ---------------------------------------------------------------------------------------------------------------
// Allocation accounting.  Every block carries a header; blocks allocated while `g_track` is set belong to the
// scenario and must all be gone at its end.

namespace {

struct Header {
  uint32_t magic;
  uint8_t tracked;
  uint8_t array;
  uint16_t pad;
  uint64_t size;
};
static_assert(sizeof(Header) == 16, "");

const uint32_t MAGIC = 0x5A17B10Cu;
const size_t HUGE_BLOCK = (size_t)256 << 20;
const size_t MOST_MEMORY = (size_t)1536 << 20;
std::atomic<size_t> g_memory{0};

thread_local int g_track = 0;
thread_local long g_live = 0;        // tracked blocks alive
thread_local size_t g_allocated = 0;  // bytes requested while tracking
thread_local std::vector<void *> *g_freed = nullptr;  // tracked blocks freed, when listening
thread_local bool g_mismatch = false;

struct Track {
  Track() {
    ++g_track;
  }
  ~Track() {
    --g_track;
  }
};

struct NoTrack {
  int saved;
  NoTrack() : saved(g_track) {
    g_track = 0;
  }
  ~NoTrack() {
    g_track = saved;
  }
};

// With HARNESS_REUSE set, a scenario's blocks are used again at once, the last one released first.  Meanwhile they are
// poisoned.
const size_t REUSE_MAX = 4096;
bool g_reuse = getenv("HARNESS_REUSE") != nullptr;
thread_local Header *g_free[REUSE_MAX + 1];
thread_local unsigned char *g_arena = nullptr;

#if defined(__SANITIZE_ADDRESS__)
#define HARNESS_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HARNESS_ASAN 1
#endif
#endif
#ifdef HARNESS_ASAN
extern "C" void __asan_poison_memory_region(void const volatile *addr, size_t size);
extern "C" void __asan_unpoison_memory_region(void const volatile *addr, size_t size);
#else
void __asan_poison_memory_region(void const volatile *, size_t) {}
void __asan_unpoison_memory_region(void const volatile *, size_t) {}
#endif

Header *TakeFree(size_t size) {
  if (!g_reuse || g_track == 0 || size > REUSE_MAX || g_free[size] == nullptr) {
    return nullptr;
  }
  auto *h = g_free[size];
  g_free[size] = (Header *)(uintptr_t)h->size;
  __asan_unpoison_memory_region(h + 1, size);
  memset(h + 1, 1, size);
  return h;
}

bool KeepFree(Header *h, size_t size) {
  if (!g_reuse || !h->tracked || size > REUSE_MAX) {
    return false;
  }
  h->size = (uint64_t)(uintptr_t)g_free[size];
  g_free[size] = h;
  __asan_poison_memory_region(h + 1, size);
  return true;
}

void *Allocate(size_t size, bool array) {
  if (g_track > 0) {
    g_allocated += size;
  }
  if (size > HUGE_BLOCK || g_memory.load(std::memory_order_relaxed) + size > MOST_MEMORY) {
    throw std::bad_alloc();
  }
  Header *h = TakeFree(size);
  if (h == nullptr) {
    h = (Header *)malloc(sizeof(Header) + size);
  }
  if (h == nullptr) {
    throw std::bad_alloc();
  }
  h->magic = MAGIC;
  h->tracked = g_track > 0;
  h->array = array;
  h->size = size;
  g_memory.fetch_add(size, std::memory_order_relaxed);
  if (h->tracked) {
    ++g_live;
  }
  return h + 1;
}

void Deallocate(void *p, bool array) {
  if (p == nullptr) {
    return;
  }
  auto *h = (Header *)p - 1;
  if (h->magic != MAGIC) {
    fprintf(stderr, "released a block that is not allocated\n");
    abort();
  }
  if (h->array != (uint8_t)array) {
    g_mismatch = true;  // delete of new[] or delete[] of new
  }
  if (h->tracked) {
    --g_live;
    if (g_freed != nullptr) {
      auto *f = g_freed;
      g_freed = nullptr;
      NoTrack n;
      f->push_back(p);
      g_freed = f;
    }
  }
  g_memory.fetch_sub(h->size, std::memory_order_relaxed);
  h->magic = 0xDEADDEADu;
  if (KeepFree(h, h->size)) {
    return;
  }
  free(h);
}

}  // namespace

void *operator new(size_t size) {
  return Allocate(size, false);
}
void *operator new[](size_t size) {
  return Allocate(size, true);
}
void *operator new(size_t size, const std::nothrow_t &) noexcept {
  try {
    return Allocate(size, false);
  } catch (...) {
    return nullptr;
  }
}
void *operator new[](size_t size, const std::nothrow_t &) noexcept {
  try {
    return Allocate(size, true);
  } catch (...) {
    return nullptr;
  }
}
void operator delete(void *p) noexcept {
  Deallocate(p, false);
}
void operator delete[](void *p) noexcept {
  Deallocate(p, true);
}
void operator delete(void *p, size_t) noexcept {
  Deallocate(p, false);
}
void operator delete[](void *p, size_t) noexcept {
  Deallocate(p, true);
}
void operator delete(void *p, const std::nothrow_t &) noexcept {
  Deallocate(p, false);
}
void operator delete[](void *p, const std::nothrow_t &) noexcept {
  Deallocate(p, true);
}

// ---------------------------------------------------------------------------------------------------------------
// Text forms

namespace {

using Bytes = std::vector<Byte>;

[[noreturn]] void Usage(const std::string &what) {
  fprintf(stderr, "harness: bad command: %s\n", what.c_str());
  _exit(90);
}

int Nibble(char c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  Usage("hex digit");
}

Bytes FromHex(const std::string &s) {
  Bytes r;
  if (s == "-") return r;
  for (size_t i = 0; i + 1 < s.size(); i += 2) {
    r.push_back((Byte)(Nibble(s[i]) * 16 + Nibble(s[i + 1])));
  }
  return r;
}

template <typename T>
T FromBytes(const Bytes &b) {
  T v;
  if (b.size() != sizeof(T)) Usage("width of a number");
  memcpy(&v, b.data(), sizeof(T));
  return v;
}

// Lists: one object for each type and content, so that equal content means the same list.  String lists are encoded as
// each string behind its length.
template <typename T>
using List = std::shared_ptr<std::vector<T>>;

template <typename T>
void ListFrom(const Bytes &b, std::vector<T> &v) {
  for (size_t i = 0; i + sizeof(T) <= b.size(); i += sizeof(T)) {
    T e;
    memcpy(&e, b.data() + i, sizeof(T));
    v.push_back(e);
  }
}

void ListFrom(const Bytes &b, std::vector<bool> &v) {
  for (auto e : b) v.push_back(e != 0);
}

void ListFrom(const Bytes &b, std::vector<std::string> &v) {
  for (size_t i = 0; i < b.size(); i += 1 + b[i]) v.emplace_back((const char *)b.data() + i + 1, b[i]);
}

template <typename T>
Bytes ListBytes(const std::vector<T> &v) {
  return Bytes((const Byte *)v.data(), (const Byte *)v.data() + v.size() * sizeof(T));
}

Bytes ListBytes(const std::vector<bool> &v) {
  Bytes b;
  for (bool e : v) b.push_back(e);
  return b;
}

Bytes ListBytes(const std::vector<std::string> &v) {
  Bytes b;
  for (const auto &e : v) {
    b.push_back(e.size());
    b.insert(b.end(), e.begin(), e.end());
  }
  return b;
}

template <typename T>
Operand MakeList(const Bytes &b) {
  NoTrack n;
  static thread_local std::map<Bytes, std::weak_ptr<std::vector<T>>> known;
  auto &k = known[b];
  auto p = k.lock();
  if (p == nullptr) {
    p = List<T>(new std::vector<T>());
    ListFrom(b, *p);
    k = p;
  }
  return Operand(p);
}

Operand MakeOperand(const std::string &s) {
  size_t c = s.find(':');
  if (c == std::string::npos) Usage("operand " + s);
  int t = atoi(s.substr(0, c).c_str());
  Bytes b;
  {
    NoTrack n;
    b = FromHex(s.substr(c + 1));
  }
  switch (t) {
  case 0:
    return Operand(nullptr);
  case 1:
    return Operand(FromBytes<int32_t>(b));
  case 2:
    return Operand(FromBytes<int64_t>(b));
  case 3:
    return Operand(b[0] != 0);
  case 4:
    return Operand(FromBytes<float>(b));
  case 5:
    return Operand(FromBytes<double>(b));
  case 7:
    {
      // Some strings have room for more, as strings that were built step by step.
      auto text = std::make_shared<std::string>((const char *)b.data(), b.size());
      size_t sum = b.size();
      for (auto x : b) sum += (unsigned char)x;
      if (sum % 2) text->reserve(b.size() * 2 + 40);
      return Operand(text);
    }
  case 8:
    return MakeList<int32_t>(b);
  case 9:
    return MakeList<int64_t>(b);
  case 10:
    return MakeList<bool>(b);
  case 11:
    return MakeList<float>(b);
  case 12:
    return MakeList<double>(b);
  case 13:
    return MakeList<std::string>(b);
  default:
    Usage("type of operand");
  }
}

std::vector<std::string> Split(const std::string &s, char sep) {
  std::vector<std::string> r;
  std::string cur;
  for (char ch : s) {
    if (ch == sep) {
      r.push_back(cur);
      cur.clear();
    } else {
      cur += ch;
    }
  }
  r.push_back(cur);
  return r;
}

std::vector<std::string> SplitRow(const std::string &s) {
  if (s == "-") return {};
  return Split(s, ',');
}

void FillTuple(Tuple &t, const std::string &s) {
  std::vector<std::string> parts;
  {
    NoTrack n;
    parts = SplitRow(s);
  }
  for (auto &p : parts) {
    t.push_back(MakeOperand(p));
  }
  NoTrack n;
  std::vector<std::string>().swap(parts);
}

template <typename T>
bool Is(const Operand &v, T &out) {
  try {
    out = v.GetValue<T>();
    return true;
  } catch (const std::bad_variant_access &) {
    return false;
  }
}

void PutBytes(std::string &o, const void *p, size_t n) {
  const auto *b = (const Byte *)p;
  o += '[';
  for (size_t i = 0; i < n; ++i) {
    if (i > 0) o += ',';
    o += std::to_string((int)b[i]);
  }
  o += ']';
}

// The operand as JSON: [type,[bytes]]
template <typename T>
bool PutList(std::string &o, const Operand &v, int type) {
  List<T> p;
  if (!Is(v, p)) return false;
  auto b = ListBytes(*p);
  o += '[' + std::to_string(type) + ',';
  PutBytes(o, b.data(), b.size());
  o += ']';
  return true;
}

void PutOperand(std::string &o, const Operand &v) {
  NoTrack n;
  int32_t i;
  int64_t l;
  bool b;
  float f;
  double d;
  String s;
  if (v == nullptr) {
    o += "[0,[]]";
  } else if (Is(v, i)) {
    o += "[1,";
    PutBytes(o, &i, 4);
    o += ']';
  } else if (Is(v, l)) {
    o += "[2,";
    PutBytes(o, &l, 8);
    o += ']';
  } else if (Is(v, b)) {
    o += b ? "[3,[1]]" : "[3,[0]]";
  } else if (Is(v, f)) {
    o += "[4,";
    PutBytes(o, &f, 4);
    o += ']';
  } else if (Is(v, d)) {
    o += "[5,";
    PutBytes(o, &d, 8);
    o += ']';
  } else if (Is(v, s)) {
    o += "[7,";
    PutBytes(o, s->data(), s->size());
    o += ']';
  } else if (!PutList<int32_t>(o, v, 8) && !PutList<int64_t>(o, v, 9) && !PutList<bool>(o, v, 10) &&
             !PutList<float>(o, v, 11) && !PutList<double>(o, v, 12) && !PutList<std::string>(o, v, 13)) {
    o += "[99,[]]";
  }
}

void PutRow(std::string &o, const Tuple &t) {
  NoTrack n;
  o += '[';
  bool first = true;
  for (const auto &v : t) {
    if (!first) o += ',';
    first = false;
    PutOperand(o, v);
  }
  o += ']';
}

void PutIds(std::string &o, const std::vector<int> &ids) {
  o += '[';
  for (size_t i = 0; i < ids.size(); ++i) {
    if (i > 0) o += ',';
    o += std::to_string(ids[i]);
  }
  o += ']';
}

long Clip(size_t n) {
  return n > 1000000000u ? 1000000000L : (long)n;
}

// Runs `f`; the result is "ok" or the kind of the exception thrown.
template <typename F>
const char *Guard(F f) {
  try {
    f();
    return "ok";
  } catch (const ExprError &e) {
    return "limit";
  } catch (const std::bad_alloc &e) {
    return "alloc";
  } catch (const std::exception &e) {
    return "err";
  } catch (...) {
    return "other";
  }
}

// ---------------------------------------------------------------------------------------------------------------
// One scenario

class Scenario {
 public:
  Scenario() {
    m_live0 = g_live;
    m_freed.reserve(16);
  }

  // Carries out one command, returns the event.
  std::string Do(const std::string &line) {
    NoTrack n;
    auto a = Split(line, ' ');
    const std::string &op = a[0];
    std::string o = "{\"op\":\"" + op + "\"";
    if (op == "ev") {
      Ev(a, o);
    } else if (op[0] == 'x') {
      Expr(a, o);
    } else if (op == "tset") {
      // Sets the content of tuple a[1], at the same address when it exists
      Track t;
      auto &p = m_tuples[a[1]];
      if (!p) p = std::make_unique<Tuple>();
      p->clear();
      FillTuple(*p, a[2]);
      NoTrack n2;
      o += ",\"t\":" + a[1] + ",\"row\":";
      PutRow(o, *p);
    } else if (op == "tdel") {
      Track t;
      m_tuples.erase(a[1]);
      NoTrack n2;
      o += ",\"t\":" + a[1];
    } else if (op == "tget") {
      o += ",\"t\":" + a[1] + ",\"row\":";
      PutRow(o, *m_tuples.at(a[1]));
    } else if (op[0] == 'r') {
      Rel(a, o);
    } else if (op == "oget") {
      auto i = m_outputs.find(a[1]);
      bool none = i == m_outputs.end();
      o += ",\"h\":" + a[1] + ",\"none\":" + (none ? "true" : "false") + ",\"row\":";
      PutRow(o, none ? Tuple() : *i->second);
    } else if (op == "odel") {
      auto i = m_outputs.find(a[1]);
      bool none = i == m_outputs.end();
      o += ",\"h\":" + a[1] + ",\"none\":" + (none ? "true" : "false");
      if (!none) {
        const Tuple *t = i->second;
        m_outputs.erase(i);
        Forget(t);
        delete t;
      }
    } else if (op == "end") {
      Finish();
      o += ",\"live\":" + std::to_string(g_live - m_live0) + ",\"mis\":" + (g_mismatch ? "1" : "0");
      g_mismatch = false;
    } else if (op[0] == 'u') {
      Util(a, o);
    } else if (op == "cval" || op == "carr" || op == "cvec") {
      Immediate(a, o);
    } else {
      Usage(line);
    }
    o += "}";
    return o;
  }

  void Finish() {
    for (auto &e : m_outputs) {
      Forget(e.second);
      delete e.second;
    }
    m_outputs.clear();
    m_rels.clear();
    m_runners.clear();
    m_tuples.clear();
    std::vector<void *>().swap(m_freed);
  }

  long Live() const {
    return g_live - m_live0;
  }

 private:
  long m_live0;
  std::map<std::string, std::unique_ptr<Runner>> m_runners;
  std::map<std::string, std::unique_ptr<RelRunner>> m_rels;
  std::map<std::string, std::unique_ptr<Tuple>> m_tuples;
  std::map<std::string, const Tuple *> m_outputs;
  std::map<const void *, int> m_rows;  // rows owned by a plan, by address
  std::vector<void *> m_freed;
  size_t m_puts = 0;  // rows handed to plans

  void Forget(const Tuple *t) {
    m_rows.erase(t);
  }

  // Code in a block of exactly its size, so that reading beyond it is noticed.  With HARNESS_REUSE set, it is always the
  // same block, so that one code takes the place of another.
  struct Code {
    Byte *data;
    size_t len;
    bool arena;
    explicit Code(const std::string &hex) {
      NoTrack n;
      Bytes b = FromHex(hex);
      len = b.size();
      arena = g_reuse && len > 0 && len <= ARENA;
      if (arena) {
        if (g_arena == nullptr) {
          g_arena = (Byte *)malloc(ARENA + 16);
        }
        data = g_arena;
        __asan_unpoison_memory_region(data, len);
        __asan_poison_memory_region(data + len, ARENA + 16 - len);
        memcpy(data, b.data(), len);
        return;
      }
      data = (Byte *)malloc(len > 0 ? len : 1);
      memcpy(data, b.data(), len);
      if (len == 0) {
        free(data);
        data = (Byte *)malloc(1);  // one byte that must not be read
        data += 1;
      }
    }
    ~Code() {
      if (arena) {
        memset(data, 0xDD, len);
        __asan_poison_memory_region(data, ARENA + 16);
      } else {
        free(len == 0 ? data - 1 : data);
      }
    }
    static const size_t ARENA = 1 << 16;
  };

  static void PutCode(std::string &o, const std::string &hex) {
    Bytes b = FromHex(hex);
    o += ",\"code\":";
    PutBytes(o, b.data(), b.size());
  }

  // Decoding leaves the code alone afterwards, so it is released at once.
  template <typename R>
  void Decode(R &r, const std::string &hex, std::string &o) {
    PutCode(o, hex);
    long pos = -1;
    const char *k;
    size_t allocated;
    {
      Code c(hex);
      size_t before = g_allocated;
      {
        Track t;
        k = Guard([&] { pos = r.Decode(c.data, c.len) - c.data; });
      }
      allocated = g_allocated - before;
    }
    o += std::string(",\"dec\":\"") + k + "\",\"pos\":" + std::to_string(pos) + ",\"al\":" + std::to_string(Clip(allocated));
  }

  template <typename T>
  static void PutDecoded(std::string &o, const T &v) {
    PutBytes(o, &v, sizeof(v));
  }

  static void PutDecoded(std::string &o, const String &v) {
    PutBytes(o, v->data(), v->size());
  }

  // The functions below the decoders: one immediate, an array, a vector.
  template <typename T>
  static void Immediate1(const std::vector<std::string> &a, std::string &o) {
    PutCode(o, a[2]);
    long pos = -1;
    size_t allocated;
    const char *k;
    std::string vs;
    {
      Code c(a[2]);
      size_t before = g_allocated;
      if (a[0] == "cval") {
        T v{};
        {
          Track t;
          k = Guard([&] {
            if (a[3] == "0") {
              pos = DecodeValue(v, c.data) - c.data;
            } else {
              pos = DecodeValue(v, c.data, c.data + c.len) - c.data;
            }
          });
        }
        allocated = g_allocated - before;
        PutDecoded(vs, v);
      } else if (a[0] == "carr") {
        T *v = nullptr;
        size_t count = 0;
        {
          Track t;
          k = Guard([&] { pos = DecodeArray(v, count, c.data, c.len) - c.data; });
        }
        allocated = g_allocated - before;
        if (strcmp(k, "ok") == 0) {
          for (size_t i = 0; i < count; ++i) {
            if (i > 0) vs += ',';
            PutDecoded(vs, v[i]);
          }
          delete[] v;
        }
      } else {
        std::vector<T> *v = nullptr;
        {
          Track t;
          k = Guard([&] { pos = DecodeVector(v, c.data, c.len) - c.data; });
        }
        allocated = g_allocated - before;
        for (size_t i = 0; v != nullptr && i < v->size(); ++i) {
          if (i > 0) vs += ',';
          PutDecoded(vs, (*v)[i]);
        }
        delete v;
      }
    }
    o += std::string(",\"k\":\"") + k + "\",\"pos\":" + std::to_string(pos) + ",\"al\":" + std::to_string(Clip(allocated)) + ",\"v\":";
    o += a[0] == "cval" ? vs : "[" + vs + "]";
  }

  static void Immediate(const std::vector<std::string> &a, std::string &o) {
    const std::string &t = a[1];
    o += ",\"t\":\"" + t + "\"";
    if (t == "i") {
      Immediate1<int>(a, o);
    } else if (t == "l") {
      Immediate1<long>(a, o);
    } else if (t == "ll") {
      Immediate1<long long>(a, o);
    } else if (t == "u") {
      Immediate1<unsigned int>(a, o);
    } else if (t == "ul") {
      Immediate1<unsigned long>(a, o);
    } else if (t == "ull") {
      Immediate1<unsigned long long>(a, o);
    } else if (t == "f") {
      Immediate1<float>(a, o);
    } else if (t == "d") {
      Immediate1<double>(a, o);
    } else if (t == "s") {
      Immediate1<String>(a, o);
    } else {
      Usage("immediate type");
    }
  }

  static void PutResult(const Runner &r, std::string &o) {
    Operand v;
    const char *k = Guard([&] {
      Track t;
      v = r.Get();
    });
    o += std::string(",\"gk\":\"") + k + "\",\"get\":";
    PutOperand(o, v);
  }

  static void PutAll(const Runner &r, std::string &o) {
    Tuple *all = nullptr;
    const char *k = Guard([&] {
      Track t;
      all = r.GetAll();
    });
    o += std::string(",\"ak\":\"") + k + "\",\"all\":";
    if (all != nullptr) {
      PutRow(o, *all);
    } else {
      o += "[]";
    }
    Track t;
    delete all;
  }

  template <typename T>
  static void PutOptional(const Runner &r, std::string &o) {
    std::optional<T> v;
    const char *k = Guard([&] { v = r.GetOptional<T>(); });
    o += std::string(",\"k\":\"") + k + "\",\"v\":";
    PutOperand(o, v.has_value() ? Operand(*v) : Operand(nullptr));
  }

  static bool IsEmpty(const Runner &r) {
    std::unique_ptr<Tuple> all(r.GetAll());
    return all->empty();
  }

  // ev CODE [ROW]: decode, bind, run and read all results with a fresh runner
  void Ev(const std::vector<std::string> &a, std::string &o) {
    Tuple row;
    bool bound = a.size() > 2 && a[2] != "*";
    if (bound) {
      FillTuple(row, a[2]);
    }
    o += ",\"bound\":" + std::string(bound ? "true" : "false") + ",\"row\":";
    PutRow(o, row);
    Runner r;
    Decode(r, a[1], o);
    if (o.find("\"dec\":\"ok\"") == std::string::npos) {
      o += ",\"run\":\"\",\"type\":-1,\"all\":[],\"ak\":\"\",\"get\":[0,[]],\"gk\":\"\"";
      return;
    }
    if (bound) {
      r.BindTuple(&row);
    }
    const char *k = Guard([&] {
      Track t;
      r.Run();
    });
    o += std::string(",\"run\":\"") + k + "\"";
    // Without any instruction there is no type to ask for.
    bool empty = strcmp(k, "ok") == 0 && IsEmpty(r);
    o += ",\"type\":" + std::to_string(empty ? -1 : (int)r.GetType());
    if (strcmp(k, "ok") == 0) {
      PutAll(r, o);
      PutResult(r, o);
    } else {
      o += ",\"all\":[],\"ak\":\"\",\"get\":[0,[]],\"gk\":\"\"";
    }
  }

  void Expr(const std::vector<std::string> &a, std::string &o) {
    const std::string &op = a[0];
    o += ",\"x\":" + a[1];
    if (op == "xnew") {
      Track t;
      m_runners[a[1]] = std::make_unique<Runner>();
      return;
    }
    Runner &r = *m_runners.at(a[1]);
    if (op == "xdel") {
      Track t;
      m_runners.erase(a[1]);
    } else if (op == "xdec") {
      Decode(r, a[2], o);
    } else if (op == "xbind") {
      o += ",\"t\":" + a[2];
      r.BindTuple(a[2] == "0" ? nullptr : m_tuples.at(a[2]).get());
    } else if (op == "xrun") {
      const char *k = Guard([&] {
        Track t;
        r.Run();
      });
      o += std::string(",\"run\":\"") + k + "\"";
    } else if (op == "xrep") {
      // Runs and reads everything a[2] times; `same` tells that nothing changed
      long n = atol(a[2].c_str());
      std::string first;
      bool same = true;
      for (long i = 0; i < n; ++i) {
        std::string q;
        const char *k = Guard([&] {
          Track t;
          r.Run();
        });
        q += std::string(",\"run\":\"") + k + "\"";
        if (strcmp(k, "ok") == 0) {
          PutAll(r, q);
        } else {
          q += ",\"ak\":\"\",\"all\":[]";
        }
        if (i == 0) first = q;
        same = same && q == first;
      }
      o += ",\"n\":" + std::to_string(n) + first + ",\"same\":" + (same ? "true" : "false");
    } else if (op == "xtype") {
      o += ",\"type\":" + std::to_string((int)r.GetType());
    } else if (op == "xget") {
      PutResult(r, o);
    } else if (op == "xall") {
      PutAll(r, o);
    } else if (op == "xopt") {
      o += ",\"t\":" + a[2];
      switch (atoi(a[2].c_str())) {
      case 1:
        PutOptional<int32_t>(r, o);
        break;
      case 2:
        PutOptional<int64_t>(r, o);
        break;
      case 3:
        PutOptional<bool>(r, o);
        break;
      case 4:
        PutOptional<float>(r, o);
        break;
      case 5:
        PutOptional<double>(r, o);
        break;
      case 7:
        PutOptional<String>(r, o);
        break;
      default:
        Usage("xopt type");
      }
    } else {
      Usage(op);
    }
  }

  // The rows of which plan were released meanwhile?
  std::vector<int> Released() {
    std::vector<int> ids;
    for (void *p : m_freed) {
      auto i = m_rows.find(p);
      if (i != m_rows.end()) {
        ids.push_back(i->second);
        m_rows.erase(i);
      }
    }
    m_freed.clear();
    return ids;
  }

  void PutOutput(const char *k, const Tuple *out, const std::string &handle, std::string &o) {
    int rid = 0;
    if (out != nullptr) {
      auto i = m_rows.find(out);
      if (i != m_rows.end()) {
        rid = i->second;
        m_rows.erase(i);
      }
      bool twice = false;
      for (auto &e : m_outputs) {
        twice = twice || e.second == out;
      }
      if (twice) rid = -1;  // the caller has got it already
    }
    std::string kind = strcmp(k, "ok") != 0 ? k : out != nullptr ? "row" : "none";
    o += ",\"k\":\"" + kind + "\",\"out\":";
    if (out != nullptr) {
      PutRow(o, *out);
    } else {
      o += "[]";
    }
    o += ",\"rid\":" + std::to_string(rid) + ",\"h\":" + handle;
    if (out != nullptr && rid != -1) {
      if (handle != "0") {
        m_outputs[handle] = out;  // kept by the caller
      } else {
        Forget(out);
        delete out;
      }
    }
  }

  void Rel(const std::vector<std::string> &a, std::string &o) {
    const std::string &op = a[0];
    o += ",\"p\":" + a[1];
    if (op == "rnew") {
      Track t;
      m_rels[a[1]] = std::make_unique<RelRunner>();
      return;
    }
    RelRunner &r = *m_rels.at(a[1]);
    if (op == "rdel") {
      g_freed = &m_freed;
      m_rels.erase(a[1]);
      g_freed = nullptr;
      o += ",\"fr\":";
      PutIds(o, Released());
    } else if (op == "rdec") {
      g_freed = &m_freed;
      Decode(r, a[2], o);
      g_freed = nullptr;
      o += ",\"fr\":";
      PutIds(o, Released());
    } else if (op == "rput") {
      // rput PLAN ROWID ROW HANDLE
      Tuple *row;
      {
        Track t;
        row = new Tuple();
        FillTuple(*row, a[3]);
      }
      o += ",\"id\":" + a[2] + ",\"row\":";
      PutRow(o, *row);
      m_rows[row] = atoi(a[2].c_str());
      ++m_puts;
      const Tuple *out = nullptr;
      g_freed = &m_freed;
      const char *k = Guard([&] {
        Track t;
        out = r.Put(row);
      });
      g_freed = nullptr;
      o += ",\"fr\":";
      PutIds(o, Released());
      PutOutput(k, out, a[4], o);
    } else if (op == "rpass") {
      // rpass PLAN ROWID OUTPUT HANDLE: puts a row that was returned, as it is
      auto i = m_outputs.find(a[3]);
      bool none = i == m_outputs.end();
      o += ",\"id\":" + a[2] + ",\"from\":" + a[3] + ",\"none\":" + (none ? "true" : "false") + ",\"row\":";
      if (none) {
        o += "[],\"fr\":[],\"k\":\"\",\"out\":[],\"rid\":0,\"h\":0";
        return;
      }
      const Tuple *row = i->second;
      m_outputs.erase(i);
      PutRow(o, *row);
      m_rows[row] = atoi(a[2].c_str());
      ++m_puts;
      const Tuple *out = nullptr;
      g_freed = &m_freed;
      const char *k = Guard([&] {
        Track t;
        out = r.Put(row);
      });
      g_freed = nullptr;
      o += ",\"fr\":";
      PutIds(o, Released());
      PutOutput(k, out, a[4], o);
    } else if (op == "rrep") {
      // rrep PLAN N ROW;ROW;...: puts all the rows, N times; what comes out the first time must come out every time
      long n = atol(a[2].c_str());
      auto rows = Split(a[3], ';');
      std::vector<std::string> first;
      bool same = true;
      m_puts += n * rows.size();
      o += ",\"n\":" + std::to_string(n) + ",\"rows\":[";
      g_freed = &m_freed;
      for (long i = 0; i < n; ++i) {
        for (size_t j = 0; j < rows.size(); ++j) {
          Tuple *row;
          {
            Track t;
            row = new Tuple();
            FillTuple(*row, rows[j]);
          }
          if (i == 0) {
            if (j > 0) o += ',';
            PutRow(o, *row);
          }
          const Tuple *out = nullptr;
          const char *k = Guard([&] {
            Track t;
            out = r.Put(row);
          });
          std::string q = std::string("{\"k\":\"") + (strcmp(k, "ok") != 0 ? k : out != nullptr ? "row" : "none") + "\",\"out\":";
          if (out != nullptr) {
            PutRow(q, *out);
          } else {
            q += "[]";
          }
          q += "}";
          m_freed.clear();
          g_freed = nullptr;
          delete out;
          g_freed = &m_freed;
          if (i == 0) {
            first.push_back(q);
          }
          same = same && first[j] == q;
        }
      }
      g_freed = nullptr;
      m_freed.clear();
      o += "],\"outs\":[";
      for (size_t j = 0; j < first.size(); ++j) {
        o += (j > 0 ? "," : "") + first[j];
      }
      o += std::string("],\"same\":") + (same ? "true" : "false");
    } else if (op == "rget") {
      const Tuple *out = nullptr;
      g_freed = &m_freed;
      const char *k = Guard([&] {
        Track t;
        out = r.Get();
      });
      g_freed = nullptr;
      o += ",\"fr\":";
      PutIds(o, Released());
      PutOutput(k, out, a[2], o);
    } else if (op == "rdrain") {
      // Fetch until the end (or more than there can be), all results in one event; exceptions are counted
      const size_t most = m_puts + 16;
      size_t n = 0;
      int errs = 0;
      std::string rows;
      std::string kind = "end";
      g_freed = &m_freed;
      while (true) {
        const Tuple *out = nullptr;
        const char *k = Guard([&] {
          Track t;
          out = r.Get();
        });
        if (strcmp(k, "ok") != 0) {
          ++errs;
          if (++n > most) {
            kind = "more";
            break;
          }
          continue;
        }
        if (out == nullptr) {
          break;
        }
        if (!rows.empty()) rows += ',';
        PutRow(rows, *out);
        g_freed = nullptr;
        Forget(out);
        delete out;
        g_freed = &m_freed;
        if (++n > most) {
          kind = "more";
          break;
        }
      }
      g_freed = nullptr;
      o += ",\"fr\":";
      PutIds(o, Released());
      o += ",\"k\":\"" + kind + "\",\"errs\":" + std::to_string(errs) + ",\"rows\":[" + rows + "]";
    } else {
      Usage(op);
    }
  }

  template <typename T>
  static Operand ThroughAny(const std::string &s) {
    Operand v = MakeOperand(s);
    std::any a = any_optional_data_adaptor::FromOperand<T>(v);
    return any_optional_data_adaptor::ToOperand<T>(a);
  }

  template <typename T>
  static bool AnyHas(const std::string &s) {
    Operand v = MakeOperand(s);
    std::any a = any_optional_data_adaptor::FromOperand<T>(v);
    return std::any_cast<std::optional<T>>(a).has_value();
  }

  void Util(const std::vector<std::string> &a, std::string &o) {
    const std::string &op = a[0];
    if (op == "ueq") {
      // ueq A B, or ueq A = for the same object on both sides
      Operand v = MakeOperand(a[1]);
      Operand other = a[2] == "=" ? Operand() : MakeOperand(a[2]);
      const Operand &w = a[2] == "=" ? v : other;
      o += ",\"a\":";
      PutOperand(o, v);
      o += ",\"b\":";
      PutOperand(o, w);
      std::hash<Operand> h;
      Operand copy = w;
      copy = v;
      o += std::string(",\"eq\":") + (v == w ? "true" : "false") + ",\"ne\":" + (v != w ? "true" : "false") +
           ",\"nul\":" + (v == nullptr ? "true" : "false") + ",\"nn\":" + (v != nullptr ? "true" : "false") +
           ",\"hs\":" + (h(v) == h(w) ? "true" : "false") + ",\"hc\":" + (h(copy) == h(v) ? "true" : "false") + ",\"cp\":";
      PutOperand(o, copy);
    } else if (op == "utup") {
      Tuple v;
      Tuple w;
      FillTuple(v, a[1]);
      FillTuple(w, a[2]);
      o += ",\"a\":";
      PutRow(o, v);
      o += ",\"b\":";
      PutRow(o, w);
      std::hash<Tuple> h;
      o += std::string(",\"eq\":") + (v == w ? "true" : "false") + ",\"hs\":" + (h(v) == h(w) ? "true" : "false");
    } else if (op == "ucat") {
      Tuple v;
      Tuple w;
      FillTuple(v, a[1]);
      FillTuple(w, a[2]);
      Tuple *c = nullptr;
      bool self = a.size() > 3;  // the same object twice
      const char *k = Guard([&] { c = ConcatTuple(v, self ? v : w); });
      o += ",\"a\":";
      PutRow(o, v);
      o += ",\"b\":";
      PutRow(o, w);
      o += std::string(",\"k\":\"") + k + "\",\"r\":";
      PutRow(o, c != nullptr ? *c : Tuple());
      delete c;
    } else if (op == "umap") {
      Tuple v;
      FillTuple(v, a[1]);
      std::vector<int> idx;
      if (a[2] != "-") {
        for (auto &s : Split(a[2], ',')) idx.push_back(atoi(s.c_str()));
      }
      Tuple *c = nullptr;
      int *p = (int *)malloc(idx.size() * sizeof(int) + (idx.empty() ? 1 : 0));
      if (!idx.empty()) memcpy(p, idx.data(), idx.size() * sizeof(int));
      const char *k = Guard([&] { c = MapTuple(v, p, idx.size()); });
      free(p);
      o += ",\"a\":";
      PutRow(o, v);
      o += ",\"idx\":";
      PutIds(o, idx);
      o += std::string(",\"k\":\"") + k + "\",\"r\":";
      PutRow(o, c != nullptr ? *c : Tuple());
      delete c;
    } else if (op == "uany") {
      // operand -> std::any of std::optional -> operand
      int t = atoi(a[1].c_str());
      Operand r;
      bool has = false;
      const char *k = Guard([&] {
        switch (t) {
        case 1:
          r = ThroughAny<int32_t>(a[2]);
          has = AnyHas<int32_t>(a[2]);
          break;
        case 2:
          r = ThroughAny<int64_t>(a[2]);
          has = AnyHas<int64_t>(a[2]);
          break;
        case 3:
          r = ThroughAny<bool>(a[2]);
          has = AnyHas<bool>(a[2]);
          break;
        case 4:
          r = ThroughAny<float>(a[2]);
          has = AnyHas<float>(a[2]);
          break;
        case 5:
          r = ThroughAny<double>(a[2]);
          has = AnyHas<double>(a[2]);
          break;
        case 7:
          r = ThroughAny<String::ValueType>(a[2]);
          has = AnyHas<String::ValueType>(a[2]);
          break;
        case 8:
          r = ThroughAny<List<int32_t>>(a[2]);
          has = AnyHas<List<int32_t>>(a[2]);
          break;
        case 9:
          r = ThroughAny<List<int64_t>>(a[2]);
          has = AnyHas<List<int64_t>>(a[2]);
          break;
        case 10:
          r = ThroughAny<List<bool>>(a[2]);
          has = AnyHas<List<bool>>(a[2]);
          break;
        case 11:
          r = ThroughAny<List<float>>(a[2]);
          has = AnyHas<List<float>>(a[2]);
          break;
        case 12:
          r = ThroughAny<List<double>>(a[2]);
          has = AnyHas<List<double>>(a[2]);
          break;
        case 13:
          r = ThroughAny<List<std::string>>(a[2]);
          has = AnyHas<List<std::string>>(a[2]);
          break;
        default:
          Usage("uany type");
        }
      });
      o += ",\"t\":" + a[1] + ",\"a\":";
      PutOperand(o, MakeOperand(a[2]));
      o += std::string(",\"k\":\"") + k + "\",\"has\":" + (has ? "true" : "false") + ",\"r\":";
      PutOperand(o, r);
    } else if (op == "uhex") {
      // bytes -> text -> bytes, through both directions of the conversion
      Bytes b = FromHex(a[1]);
      Bytes lower;
      std::string text = HexOfBytes(b.data(), b.size());
      Bytes back(b.size());
      HexToBytes(back.data(), text.data(), text.size());
      std::string low = text;
      for (auto &ch : low) ch = (char)tolower(ch);
      Bytes back2(b.size());
      HexToBytes(back2.data(), low.data(), low.size());
      // a digit too many: the bytes of the pairs, and nothing beyond them
      Bytes back3(b.size());
      HexToBytes(back3.data(), (text + "7").data(), text.size() + 1);
      std::string text2(b.size() * 2, '?');
      BytesToHex(text2.data(), b.data(), b.size());
      o += ",\"a\":";
      PutBytes(o, b.data(), b.size());
      o += ",\"text\":";
      PutBytes(o, text.data(), text.size());
      o += ",\"text2\":";
      PutBytes(o, text2.data(), text2.size());
      o += ",\"back\":";
      PutBytes(o, back.data(), back.size());
      o += ",\"back2\":";
      PutBytes(o, back2.data(), back2.size());
      o += ",\"back3\":";
      PutBytes(o, back3.data(), back3.size());
    } else if (op == "unib") {
      int n = atoi(a[1].c_str());
      o += ",\"a\":" + a[1] + ",\"hex\":" + std::to_string((int)HexToNibble((char)n)) +
           ",\"nib\":" + std::to_string((int)(signed char)NibbleToHex(n));
    } else if (op == "uname") {
      const char *s = TypeName((Byte)atoi(a[1].c_str()));
      o += ",\"a\":" + a[1] + ",\"text\":";
      PutBytes(o, s, strlen(s));
    } else if (op == "ustr") {
      // printed form of an operand
      Operand v = MakeOperand(a[1]);
      std::ostringstream ss;
      ss << v;
      auto s = ss.str();
      o += ",\"a\":";
      PutOperand(o, v);
      o += ",\"text\":";
      PutBytes(o, s.data(), s.size());
    } else {
      Usage(op);
    }
  }
};

struct Script {
  std::string id;
  std::vector<std::string> cmds;
};

std::vector<Script> Load(const char *file) {
  std::ifstream in(file);
  std::vector<Script> all;
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    if (line[0] == 'S' && line[1] == ' ') {
      all.push_back({line.substr(2), {}});
    } else {
      all.back().cmds.push_back(line);
    }
  }
  return all;
}

void Write(const std::string &s) {
  const char *p = s.data();
  size_t n = s.size();
  while (n > 0) {
    ssize_t w = write(1, p, n);
    if (w <= 0) _exit(91);
    p += w;
    n -= w;
  }
}

// Blocks that the library keeps on purpose (initialised once) are not left over by the scenario: it is run again.
std::string EndAgain(const Script &s, const std::string &first) {
  if (first.find("\"live\":0,") != std::string::npos) {
    return first;
  }
  std::string last = first;
  for (int i = 0; i < 2; ++i) {
    Scenario sc;
    for (auto &c : s.cmds) {
      std::string e = sc.Do(c);
      if (c == "end") last = e;
    }
  }
  return last;
}

void RunAll(const std::vector<Script> &scripts) {
  for (auto &s : scripts) {
    alarm(30);
    Write("S " + s.id + "\n");
    Scenario sc;
    for (auto &c : s.cmds) {
      std::string e = sc.Do(c);
      if (c == "end") e = EndAgain(s, e);
      Write(e + "\n");
    }
    sc.Finish();
  }
  alarm(0);
  Write("E\n");
}

void RunThreads(const std::vector<Script> &scripts, int n) {
  alarm(120);
  std::vector<std::string> outs(scripts.size());
  std::vector<std::thread> threads;
  for (int t = 0; t < n; ++t) {
    threads.emplace_back([&, t] {
      for (int round = 0; round < 3; ++round) {
        for (size_t i = t; i < scripts.size(); i += n) {
          std::string o = "S " + scripts[i].id + "\n";
          Scenario sc;
          for (auto &c : scripts[i].cmds) {
            o += sc.Do(c) + "\n";
          }
          sc.Finish();
          if (round == 0) {
            outs[i] = o;
          } else if (outs[i] != o && round == 2) {
            outs[i] = o;
          }
        }
      }
    });
  }
  for (auto &t : threads) {
    t.join();
  }
  for (auto &o : outs) {
    Write(o);
  }
  Write("E\n");
}

}  // namespace

int main(int argc, char **argv) {
  if (argc == 4 && strcmp(argv[1], "-t") == 0) {
    RunThreads(Load(argv[3]), atoi(argv[2]));
  } else if (argc == 2) {
    RunAll(Load(argv[1]));
  } else {
    Usage("arguments");
  }
  fflush(stderr);
  _exit(0);
}
