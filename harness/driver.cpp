// Conformance driver: executes scripts of public-API calls on the real Apollo
// library and records, after every call, the abstract state the specification
// talks about. One forked process per run; one ndjson line per call.
//
// usage: driver SCRIPTFILE        (each run names its directory and log file)
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <new>
#include <signal.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

#include "apollo/Apollo.h"
#include "apollo/Dataset.h"
#include "apollo/ModelFactory.h"
#include "apollo/Region.h"
#include "apollo/models/PolicyNet.h"
#include "fakegpu.h"
#ifdef DRV_MPI
#include <mpi.h>
#endif

typedef long long ll;

// ---------------------------------------------------------------- fake clock
static bool g_fake_clock = false;
static ll g_mono_ns = 0, g_real_ns = 0, g_tick_ns = 0;
static void set_ts(struct timespec *ts, ll ns)
{
  ts->tv_sec = ns / 1000000000LL;
  ts->tv_nsec = ns % 1000000000LL;
}
extern "C" int clock_gettime(clockid_t id, struct timespec *ts)
{
  if (g_fake_clock) {
    switch (id) {
      case CLOCK_MONOTONIC:
      case CLOCK_MONOTONIC_RAW:
      case CLOCK_MONOTONIC_COARSE:
      case CLOCK_BOOTTIME:
        set_ts(ts, g_mono_ns);
        g_mono_ns += g_tick_ns;
        return 0;
      case CLOCK_REALTIME:
      case CLOCK_REALTIME_COARSE:
        set_ts(ts, g_real_ns);
        return 0;
      default:
        break;
    }
  }
  return syscall(SYS_clock_gettime, id, ts);
}
extern "C" int gettimeofday(struct timeval *tv, void *)
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
extern "C" time_t time(time_t *t)
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}

// ---------------------------------------------------------------- random device
// Seeds are a function of the run, so that a rejected run can be repeated.
#include <random>
static uint64_t g_rnd = 0x9e3779b97f4a7c15ull;
unsigned int std::random_device::_M_getval()
{
  uint64_t z = (g_rnd += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return (unsigned int)(z ^ (z >> 31));
}

// ---------------------------------------------------------------- fake device
struct Exec {  // one asynchronous execution on the device
  std::string id;
  double start = 0, dur = 0;  // ms
  bool done = false;
};
struct FakeEvent {
  bool alive = true, recorded = false, is_stop = false;
  Exec *ex = nullptr;
};
static std::map<std::string, std::unique_ptr<Exec>> g_execs;
static Exec *g_cur_exec = nullptr;  // execution whose begin()/end() is running
static bool g_cur_is_end = false;
static std::vector<std::string> g_drain;
static size_t g_drain_pos = 0, g_polls = 0, g_drain_polls = 2;
static bool g_draining = false;
static void drain_poll()
{
  if (!g_draining) return;
  if (++g_polls % g_drain_polls) return;
  while (g_drain_pos < g_drain.size()) {
    auto it = g_execs.find(g_drain[g_drain_pos++]);
    if (it != g_execs.end() && !it->second->done) {
      it->second->done = true;
      return;
    }
  }
}
// events live outside the heap, so that heap use is the library's own
static ll g_live_events = 0;
static FakeEvent *new_event()
{
  static FakeEvent *pool = nullptr;
  static size_t left = 0;
  if (!left) {
    left = 4096;
    void *m = mmap(nullptr, left * sizeof(FakeEvent), PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) _exit(94);
    pool = (FakeEvent *)m;
  }
  --left;
  return new (pool++) FakeEvent();
}
FakeError fakeEventCreate(FakeEvent_t *e)
{
  *e = new_event();
  g_live_events++;
  return FakeSuccess;
}
FakeError fakeEventDestroy(FakeEvent_t e)
{
  if (!e || !e->alive) return FakeInvalidHandle;
  g_live_events--;
  e->alive = false;  // never freed: a later use is reported, not undefined
  return FakeSuccess;
}
FakeError fakeEventRecord(FakeEvent_t e)
{
  if (!e || !e->alive || !g_cur_exec) return FakeInvalidHandle;
  e->recorded = true;
  e->is_stop = g_cur_is_end;
  e->ex = g_cur_exec;
  return FakeSuccess;
}
static bool complete(FakeEvent_t e) { return !e->is_stop || e->ex->done; }
FakeError fakeEventQuery(FakeEvent_t e)
{
  if (!e || !e->alive) return FakeInvalidHandle;
  if (!e->recorded) return FakeSuccess;
  if (complete(e)) return FakeSuccess;
  drain_poll();
  return FakeNotReady;
}
FakeError fakeEventSynchronize(FakeEvent_t e)
{
  if (!e || !e->alive) return FakeInvalidHandle;
  if (e->recorded) e->ex->done = true;
  return FakeSuccess;
}
static double stamp(FakeEvent_t e)
{
  return e->ex->start + (e->is_stop ? e->ex->dur : 0);
}
FakeError fakeEventElapsedTime(float *ms, FakeEvent_t a, FakeEvent_t b)
{
  if (!a || !b || !a->alive || !b->alive) return FakeInvalidHandle;
  if (!a->recorded || !b->recorded) return FakeInvalidHandle;
  if (!complete(a) || !complete(b)) {
    drain_poll();
    return FakeNotReady;
  }
  *ms = (float)(stamp(b) - stamp(a));
  return FakeSuccess;
}

// ---------------------------------------------------------------- resources
extern "C" size_t __sanitizer_get_current_allocated_bytes()
    __attribute__((weak));
static ll heap_bytes()
{
  return __sanitizer_get_current_allocated_bytes
             ? (ll)__sanitizer_get_current_allocated_bytes()
             : 0;
}
static ll open_fds()
{
  ll n = 0;
  DIR *d = opendir("/proc/self/fd");
  if (!d) return 0;
  while (readdir(d))
    n++;
  closedir(d);
  return n;
}

// ---------------------------------------------------------------- logging
static int g_log = -1;
static double g_scale = 1048576.0;
static void emit(const std::string &s)
{
  std::string l = s + "\n";
  size_t o = 0;
  while (o < l.size()) {
    ssize_t n = write(g_log, l.data() + o, l.size() - o);
    if (n <= 0) _exit(97);
    o += n;
  }
}
static std::string q(const std::string &s)
{
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += c;
  }
  return r + "\"";
}
static std::string fmt(const char *f, ...)
{
  char b[512];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
static std::string fkey(const std::vector<float> &v)
{
  std::string k;
  for (size_t i = 0; i < v.size(); ++i) {
    if (i) k += ",";
    k += fmt("%.9g", v[i] == 0 ? 0.0 : (double)v[i]);
  }
  return k;
}
static ll units(double m)
{
  double u = m * g_scale;
  if (!(u > -2000000000.0 && u < 2000000000.0)) return -2000000000;
  return llround(u);
}
static std::string hex(double d)
{
  uint64_t u;
  memcpy(&u, &d, 8);
  return fmt("%016llx", (unsigned long long)u);
}

// ---------------------------------------------------------------- state
struct RegionInfo {
  Apollo::Region *r;
  std::map<std::pair<std::string, int>, std::pair<ll, std::string>> ds;
  int tr = -1;
  ll idx = -1;
};
static std::map<std::string, RegionInfo> g_regions;
struct Ctx {
  Apollo::RegionContext *c;
  Apollo::Region *r;
  std::string style;
};
static std::map<std::string, Ctx> g_ctx;
static std::map<std::string, std::unique_ptr<apollo::PolicyModel>> g_models;
static bool g_track_files = false;
static int g_only_rank = -1;  // files named after another rank are its business

static std::vector<std::string> changed_files()
{
  std::vector<std::string> out;
  if (!g_track_files) return out;
  std::function<void(const std::string &)> walk = [&](const std::string &d) {
    DIR *dir = opendir(d.c_str());
    if (!dir) return;
    while (dirent *e = readdir(dir)) {
      std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      std::string p = d == "." ? n : d + "/" + n;
      struct stat st;
      if (stat(p.c_str(), &st)) continue;
      if (S_ISDIR(st.st_mode)) {
        walk(p);
        continue;
      }
      if (st.st_mtim.tv_sec == 1) continue;
      if (p.find("models") == std::string::npos &&
          p.find("best_policies") == std::string::npos &&
          p.find("allgather") == std::string::npos)
        continue;
      size_t rp = p.find("-rank-");
      if (g_only_rank >= 0 && rp != std::string::npos &&
          atoi(p.c_str() + rp + 6) != g_only_rank)
        continue;
      out.push_back(p);
      struct timespec t[2] = {{1, 0}, {1, 0}};
      utimensat(AT_FDCWD, p.c_str(), t, 0);
    }
    closedir(dir);
  };
  walk(".");
  std::sort(out.begin(), out.end());
  return out;
}

static std::string diff_state()
{
  std::string ds, rm, st, fl;
  for (auto &kv : g_regions) {
    auto &ri = kv.second;
    std::map<std::pair<std::string, int>, std::pair<ll, std::string>> now;
    for (auto &t : ri.r->dataset.toVectorOfTuples())
      now[{fkey(std::get<0>(t)), std::get<1>(t)}] = {units(std::get<2>(t)),
                                                     hex(std::get<2>(t))};
    for (auto &e : now) {
      auto it = ri.ds.find(e.first);
      if (it != ri.ds.end() && it->second == e.second) continue;
      ds += (ds.empty() ? "" : ",") +
            fmt("{\"r\":%s,\"k\":%s,\"p\":%d,\"u\":%lld,\"x\":\"%s\"}",
                q(kv.first).c_str(), q(e.first.first).c_str(), e.first.second,
                e.second.first, e.second.second.c_str());
    }
    for (auto &e : ri.ds)
      if (!now.count(e.first))
        rm += (rm.empty() ? "" : ",") +
              fmt("{\"r\":%s,\"k\":%s,\"p\":%d}", q(kv.first).c_str(),
                  q(e.first.first).c_str(), e.first.second);
    ri.ds.swap(now);
    int tr = ri.r->model->isTrainable() ? 1 : 0;
    ll ix = ri.r->idx;
    if (tr != ri.tr || ix != ri.idx) {
      st += (st.empty() ? "" : ",") +
            fmt("{\"r\":%s,\"t\":%s,\"i\":%lld}", q(kv.first).c_str(),
                tr ? "true" : "false", ix);
      ri.tr = tr;
      ri.idx = ix;
    }
  }
  for (auto &f : changed_files())
    fl += (fl.empty() ? "" : ",") + q(f);
  return ",\"ds\":[" + ds + "],\"rm\":[" + rm + "],\"st\":[" + st +
         "],\"fl\":[" + fl + "]";
}

static std::vector<std::string> split(const std::string &s, char d)
{
  std::vector<std::string> v;
  std::string t;
  std::istringstream is(s);
  while (std::getline(is, t, d))
    v.push_back(t);
  return v;
}
static std::vector<float> floats(const std::string &s)
{
  std::vector<float> v;
  if (s == "-" || s.empty()) return v;
  for (auto &t : split(s, ','))
    v.push_back(strtof(t.c_str(), nullptr));
  return v;
}
static std::string unesc(const std::string &s)
{
  if (s == "-") return "";
  std::string r;
  for (size_t i = 0; i < s.size(); ++i)
    if (s[i] == '%' && i + 2 < s.size()) {
      r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
      i += 2;
    } else
      r += s[i];
  return r;
}

static std::string tuples(
    const std::vector<std::tuple<std::vector<float>, int, double>> &v)
{
  std::string o;
  for (auto &t : v)
    o += (o.empty() ? "" : ",") +
         fmt("{\"k\":%s,\"p\":%d,\"u\":%lld,\"x\":\"%s\"}",
             q(fkey(std::get<0>(t))).c_str(), std::get<1>(t),
             units(std::get<2>(t)), hex(std::get<2>(t)).c_str());
  return "[" + o + "]";
}

// Action probabilities of a PolicyNet: from its cache when the build has one
// under the known name, otherwise only by drawing (the scripts do that too).
template <class T>
static auto probs_impl(T *pn, std::vector<float> f, int)
    -> decltype(pn->actionProbabilityMap.clear(), std::string())
{
  auto saved = pn->actionProbabilityMap;
  pn->actionProbabilityMap.clear();
  pn->getIndex(f);
  std::vector<double> fresh, old;
  for (auto &kv : pn->actionProbabilityMap) {
    fresh.assign(kv.second.begin(), kv.second.end());
    auto it = saved.find(kv.first);
    if (it != saved.end()) old.assign(it->second.begin(), it->second.end());
  }
  pn->actionProbabilityMap = saved;
  auto list = [](const std::vector<double> &v) {
    std::string s;
    for (double d : v)
      s += (s.empty() ? "" : ",") +
           (std::isfinite(d) ? fmt("%lld", (ll)llround(d * 1e8))
                             : std::string("-1"));
    return "[" + s + "]";
  };
  std::string hx;
  for (double d : fresh)
    hx += hex(d);
  return list(fresh) + ",\"cached\":" + list(old) + ",\"hx\":" + q(hx) +
         ",\"via\":\"cache\"";
}
template <class T>
static std::string probs_impl(T *, std::vector<float>, long)
{
  return "[],\"cached\":[],\"hx\":\"\",\"via\":\"none\"";
}
static std::string probs_of(apollo::PolicyModel *m, std::vector<float> f)
{
  auto *pn = dynamic_cast<apollo::PolicyNet *>(m);
  if (!pn) return "[],\"cached\":[],\"hx\":\"\",\"via\":\"none\"";
  return probs_impl(pn, f, 0);
}

#ifdef DRV_KOKKOS
// ---------------------------------------------------------------- Kokkos
#include <impl/Kokkos_Profiling_Interface.hpp>
namespace KT = Kokkos::Tools::Experimental;
extern "C" {
void kokkosp_parse_args(int, char **);
void kokkosp_init_library(const int, const uint64_t, const uint32_t, void *);
void kokkosp_finalize_library();
void kokkosp_declare_output_type(const char *, const size_t, KT::VariableInfo *);
void kokkosp_declare_input_type(const char *, const size_t, KT::VariableInfo *);
void kokkosp_request_values(size_t, size_t, KT::VariableValue *, size_t,
                            KT::VariableValue *);
void kokkosp_end_context(size_t);
void kokkosp_provide_tool_programming_interface(uint32_t,
                                                KT::ToolProgrammingInterface);
void kokkosp_begin_parallel_for(const char *, const uint32_t, uint64_t *);
void kokkosp_end_parallel_for(const uint64_t);
void kokkosp_begin_parallel_scan(const char *, const uint32_t, uint64_t *);
void kokkosp_end_parallel_scan(const uint64_t);
void kokkosp_begin_parallel_reduce(const char *, const uint32_t, uint64_t *);
void kokkosp_end_parallel_reduce(const uint64_t);
}
// regions the connector creates are learned from their constructor
#define REGION_CTOR(p) \
  p##_ZN6Apollo6RegionC1EiPKciiRKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESA_
static bool g_in_kreq = false;
struct KNew {
  std::string name;
  int nf, np;
};
static std::vector<KNew> g_knew;
extern "C" void REGION_CTOR(__real_)(Apollo::Region *, int, const char *, int,
                                     int, const std::string &,
                                     const std::string &);
extern "C" void REGION_CTOR(__wrap_)(Apollo::Region *self, int nf,
                                     const char *n, int np, int mn,
                                     const std::string &mi,
                                     const std::string &yf)
{
  REGION_CTOR(__real_)(self, nf, n, np, mn, mi, yf);
  if (!g_in_kreq) return;
  std::string name = self->name;
  while (g_regions.count(name)) name += "'";  // same name again
  g_regions[name].r = self;
  g_knew.push_back({name, nf, np});
}
struct KVar {
  std::string name;
  KT::VariableInfo info;
};
static std::map<size_t, KVar *> g_kvars;
static std::vector<uint32_t> g_fences;
static void note_fence(const uint32_t d) { g_fences.push_back(d); }
static void kset(KT::VariableInfo &i, KT::VariableValue &v, const std::string &t)
{
  memset(&v.value, 0, sizeof v.value);
  if (i.type == KT::ValueType::kokkos_value_int64)
    v.value.int_value = atoll(t.c_str());
  else if (i.type == KT::ValueType::kokkos_value_double)
    v.value.double_value = strtod(t.c_str(), nullptr);
  else
    strncpy(v.value.string_value, t.c_str(), 63);
}
static std::string kget(KT::VariableInfo &i, const KT::VariableValue &v)
{
  if (i.type == KT::ValueType::kokkos_value_int64)
    return fmt("%lld", (ll)v.value.int_value);
  if (i.type == KT::ValueType::kokkos_value_double)
    return fmt("%.17g", v.value.double_value);
  return std::string(v.value.string_value,
                     strnlen(v.value.string_value, sizeof v.value.string_value));
}
// kdecl in|out ID NAME i|d|s set|range|unb [values a;b;c | lo hi step ol ou]
static void kdecl(const std::vector<std::string> &a)
{
  auto *v = new KVar();
  size_t id = strtoull(a[2].c_str(), nullptr, 10);
  v->name = unesc(a[3]);
  memset(&v->info, 0, sizeof v->info);
  v->info.type = a[4] == "i"   ? KT::ValueType::kokkos_value_int64
                 : a[4] == "d" ? KT::ValueType::kokkos_value_double
                               : KT::ValueType::kokkos_value_string;
  auto parse = [&](const std::string &t) {
    KT::VariableValue x;
    kset(v->info, x, t);
    return x.value;
  };
  if (a[5] == "set") {
    v->info.valueQuantity = KT::CandidateValueType::kokkos_value_set;
    auto l = split(a[6], ';');
    v->info.candidates.set.size = l.size();
    if (a[4] == "i") {
      auto *p = new int64_t[l.size()];
      for (size_t i = 0; i < l.size(); ++i) p[i] = parse(l[i]).int_value;
      v->info.candidates.set.values.int_value = p;
    } else if (a[4] == "d") {
      auto *p = new double[l.size()];
      for (size_t i = 0; i < l.size(); ++i) p[i] = parse(l[i]).double_value;
      v->info.candidates.set.values.double_value = p;
    } else {
      auto *p = new Kokkos_Tools_Tuning_String[l.size()];
      for (size_t i = 0; i < l.size(); ++i)
        memcpy(p[i], parse(unesc(l[i])).string_value, sizeof p[i]);
      v->info.candidates.set.values.string_value = p;
    }
  } else if (a[5] == "range") {
    v->info.valueQuantity = KT::CandidateValueType::kokkos_value_range;
    auto &r = v->info.candidates.range;
    r.lower = parse(a[6]);
    r.upper = parse(a[7]);
    r.step = parse(a[8]);
    r.openLower = a[9] == "1";
    r.openUpper = a[10] == "1";
  } else
    v->info.valueQuantity = KT::CandidateValueType::kokkos_value_unbounded;
  g_kvars[id] = v;
  if (a[1] == "in")
    kokkosp_declare_input_type(v->name.c_str(), id, &v->info);
  else
    kokkosp_declare_output_type(v->name.c_str(), id, &v->info);
}
// kreq CTX ctxvars(id=value,..|-) tunvars(id,..|-)
static std::string kreq(const std::vector<std::string> &a)
{
  std::vector<KT::VariableValue> cv, tv;
  std::string feats;
  auto lst = [](const std::string &s) {
    return s == "-" ? std::vector<std::string>() : split(s, ',');
  };
  for (auto &t : lst(a[2])) {
    size_t eq = t.find('=');
    KT::VariableValue v;
    v.type_id = strtoull(t.c_str(), nullptr, 10);
    auto &i = g_kvars.at(v.type_id)->info;
    v.metadata = &i;
    kset(i, v, unesc(t.substr(eq + 1)));
    cv.push_back(v);
    float f = i.type == KT::ValueType::kokkos_value_int64
                  ? (float)v.value.int_value
              : i.type == KT::ValueType::kokkos_value_double
                  ? (float)v.value.double_value
                  : (float)std::hash<std::string>{}(v.value.string_value);
    feats += (feats.empty() ? "" : ",") + fkey({f});
  }
  for (auto &t : lst(a[3])) {
    KT::VariableValue v;
    v.type_id = strtoull(t.c_str(), nullptr, 10);
    auto &i = g_kvars.at(v.type_id)->info;
    v.metadata = &i;
    memset(&v.value, 0x5a, sizeof v.value);
    if (i.type == KT::ValueType::kokkos_value_string) v.value.string_value[63] = 0;
    tv.push_back(v);
  }
  g_knew.clear();
  g_in_kreq = true;
  // exact-size arrays, so that an access beyond them is detected
  std::unique_ptr<KT::VariableValue[]> c(new KT::VariableValue[cv.size()]),
      t(new KT::VariableValue[tv.size()]);
  std::copy(cv.begin(), cv.end(), c.get());
  std::copy(tv.begin(), tv.end(), t.get());
  kokkosp_request_values(strtoull(a[1].c_str(), nullptr, 10), cv.size(), c.get(),
                         tv.size(), t.get());
  g_in_kreq = false;
  std::string v, w;
  for (size_t i = 0; i < tv.size(); ++i)
    v += (v.empty() ? "" : ",") +
         (t[i].type_id == tv[i].type_id ? q(kget(*tv[i].metadata, t[i]))
                                        : q("wrong variable"));
  for (auto &n : g_knew)
    w += (w.empty() ? "" : ",") +
         fmt("{\"r\":%s,\"nf\":%d,\"np\":%d}", q(n.name).c_str(), n.nf, n.np);
  return ",\"k\":" + q(feats) + ",\"v\":[" + v + "],\"new\":[" + w + "]";
}
#endif

static bool run_op(const std::vector<std::string> &a)
{
  const std::string &op = a[0];
  std::string x = "{\"e\":" + q(op);
  auto S = [&](size_t i) { return i < a.size() ? a[i] : std::string("-"); };
  auto R = [&](size_t i) -> Apollo::Region * {
    auto it = g_regions.find(unesc(S(i)));
    if (it == g_regions.end()) _exit(96);
    x += ",\"r\":" + q(it->first);
    return it->second.r;
  };
  auto C = [&](size_t i) -> Ctx & {
    auto it = g_ctx.find(S(i));
    if (it == g_ctx.end()) _exit(95);
    std::string rn;
    for (auto &kv : g_regions)
      if (kv.second.r == it->second.r) rn = kv.first;
    x += ",\"r\":" + q(rn) + ",\"c\":" + q(S(i));
    return it->second;
  };
  if (op == "scale") {
    g_scale = ldexp(1.0, atoi(S(1).c_str()));
    return true;
  } else if (op == "clock") {  // clock MONO_NS REAL_NS TICK_NS
    g_mono_ns = atoll(S(1).c_str());
    g_real_ns = atoll(S(2).c_str());
    g_tick_ns = atoll(S(3).c_str());
    g_fake_clock = true;
    return true;
  } else if (op == "rnd") {
    g_rnd = strtoull(S(1).c_str(), nullptr, 10);
    return true;
  } else if (op == "track") {
    g_track_files = true;
    changed_files();
    return true;
  } else if (op == "create") {  // create R api nf np min info yaml
    std::string name = unesc(S(1)), info = unesc(S(6)), yaml = unesc(S(7));
    int nf = atoi(S(3).c_str()), np = atoi(S(4).c_str()),
        mn = atoi(S(5).c_str());
    Apollo::Region *r;
    if (S(2) == "c")
      r = (Apollo::Region *)__apollo_region_create(nf, name.c_str(), np, mn,
                                                   info.c_str());
    else
      r = new Apollo::Region(nf, name.c_str(), np, mn, info, yaml);
    g_regions[name].r = r;
    x += ",\"r\":" + q(name) + ",\"mn\":" + q(r->model->name);
  } else if (op == "begin") {  // begin R C style [features|ms]
    Apollo::Region *r = R(1);
    Ctx c;
    c.r = r;
    c.style = S(3);
    x += ",\"c\":" + q(S(2)) + ",\"y\":" + q(c.style);
    if (c.style.compare(0, 4, "cuda") == 0 || c.style.compare(0, 3, "hip") == 0) {
      auto &e = g_execs[S(2)];
      e.reset(new Exec());
      e->id = S(2);
      e->dur = strtod(S(4).c_str(), nullptr);
      e->start = 4096.0 * (double)(g_execs.size() % 61);
      g_cur_exec = e.get();
      g_cur_is_end = false;
      c.c = r->begin(c.style[0] == 'c' ? Apollo::Region::TIMING_CUDA_ASYNC
                                       : Apollo::Region::TIMING_HIP_ASYNC);
      g_cur_exec = nullptr;
      // "cudadep", "hipdep": context-free calls for the rest
      if (c.style.size() > 4 && c.style.find("dep") != std::string::npos)
        c.style = "dep";
    } else if (c.style == "vec") {
      std::vector<float> f = floats(S(4));
      c.c = r->begin(f);
    } else if (c.style == "c") {
      __apollo_region_begin(r);
      c.c = nullptr;
    } else if (c.style == "tk")
      c.c = r->begin(Apollo::Region::TIMING_SYNC);
    else
      c.c = r->begin();
    g_ctx[S(2)] = c;
  } else if (op == "feat") {
    Ctx &c = C(1);
    float v = strtof(S(2).c_str(), nullptr);
    if (c.style == "c")
      __apollo_region_set_feature(c.r, v);
    else if (c.style == "dep")
      c.r->setFeature(v);
    else
      c.r->setFeature(c.c, v);
  } else if (op == "pol") {
    Ctx &c = C(1);
    int p;
    if (c.style == "c")
      p = __apollo_region_get_policy(c.r);
    else if (c.style == "dep")
      p = c.r->getPolicyIndex();
    else
      p = c.r->getPolicyIndex(c.c);
    x += fmt(",\"p\":%d", p);
  } else if (op == "end" || op == "endm") {
    Ctx &c = C(1);
    auto ex = g_execs.find(S(1));
    g_cur_exec = ex == g_execs.end() ? nullptr : ex->second.get();
    g_cur_is_end = true;
    if (op == "end") {
      if (c.style == "c")
        __apollo_region_end(c.r);
      else if (c.style == "dep")
        c.r->end();
      else
        c.r->end(c.c);
    } else {
      double m = strtod(S(2).c_str(), nullptr);
      if (c.style == "dep" || c.style == "c")
        c.r->end(m);
      else
        c.r->end(c.c, m);
    }
    g_cur_exec = nullptr;
  } else if (op == "done") {
    x += ",\"c\":" + q(S(1));
    g_execs[S(1)]->done = true;
  } else if (op == "adv") {
    ll d = atoll(S(1).c_str());
    g_mono_ns += d;
    g_real_ns += d;
    return true;
  } else if (op == "jump") {
    g_real_ns += atoll(S(1).c_str());
    return true;
  } else if (op == "train") {  // train R step collect force
    Apollo::Region *r = R(1);
    r->train(atoi(S(2).c_str()), S(3) == "1", S(4) == "1");
  } else if (op == "ctrain") {
    Apollo::Region *r = R(1);
    __apollo_region_train(r, atoi(S(2).c_str()));
  } else if (op == "traina") {
    if (a.size() > 2)
      Apollo::instance()->train(atoi(S(1).c_str()), S(2) == "1");
    else
      Apollo::instance()->train(atoi(S(1).c_str()));
  } else if (op == "flush") {
    Apollo::instance()->flushAllRegionMeasurements(atoi(S(1).c_str()));
  } else if (op == "collect") {
    R(1)->collectPendingContexts();
  } else if (op == "q") {  // ask the region's model directly
    Apollo::Region *r = R(1);
    std::vector<float> f = floats(S(2));
    std::string k = fkey(f);
    int p = r->model->getIndex(f);
    x += ",\"k\":" + q(k) + fmt(",\"p\":%d", p);
  } else if (op == "best") {
    Apollo::Region *r = R(1);
    std::vector<std::vector<float>> f;
    std::vector<int> p;
    std::map<std::vector<float>, std::pair<int, double>> m;
    r->dataset.findMinMetricPolicyByFeatures(f, p, m);
    std::string o, l;
    for (auto &b : m)
      o += (o.empty() ? "" : ",") +
           fmt("{\"k\":%s,\"p\":%d,\"u\":%lld,\"x\":\"%s\"}",
               q(fkey(b.first)).c_str(), b.second.first,
               units(b.second.second), hex(b.second.second).c_str());
    for (size_t i = 0; i < f.size(); ++i)
      l += (l.empty() ? "" : ",") +
           fmt("{\"k\":%s,\"p\":%d}", q(fkey(f[i])).c_str(),
               i < p.size() ? p[i] : -1);
    x += ",\"b\":[" + o + "],\"l\":[" + l + "]";
  } else if (op == "store") {
    R(1)->model->store(unesc(S(2)));
  } else if (op == "load") {
    R(1)->model->load(unesc(S(2)));
  } else if (op == "probs") {
    Apollo::Region *r = R(1);
    std::vector<float> f = floats(S(2));
    x += ",\"k\":" + q(fkey(f)) +
         ",\"pr\":" + probs_of(r->model.get(), f);
  } else if (op == "draw") {  // draw R features n : frequencies of n decisions
    Apollo::Region *r = R(1);
    std::vector<float> f = floats(S(2));
    int n = atoi(S(3).c_str());
    std::map<int, int> h;
    for (int i = 0; i < n; ++i) {
      std::vector<float> g = f;
      h[r->model->getIndex(g)]++;
    }
    std::string o;
    for (auto &e : h)
      o += (o.empty() ? "" : ",") + fmt("[%d,%d]", e.first, e.second);
    x += ",\"k\":" + q(fkey(f)) + fmt(",\"n\":%d", n) + ",\"h\":[" + o + "]";
  } else if (op == "insert") {  // put a measurement straight into the dataset
    Apollo::Region *r = R(1);
    std::vector<float> f = floats(S(2));
    r->dataset.insert(f, atoi(S(3).c_str()), strtod(S(4).c_str(), nullptr));
  } else if (op == "bulk") {  // bulk R f,f:p:m;...  many measurements at once
    Apollo::Region *r = R(1);
    for (auto &t : split(S(2), ';')) {
      auto w = split(t, ':');
      std::vector<float> f = floats(w[0]);
      r->dataset.insert(f, atoi(w[1].c_str()), strtod(w[2].c_str(), nullptr));
    }
  } else if (op == "mem") {
    ll b = heap_bytes(), f = open_fds();
    x += fmt(",\"b\":%lld,\"f\":%lld,\"lv\":%lld", b, f, g_live_events);
  } else if (op == "loop") {  // loop R style n lag metric|- f,f;f,f;...
    Apollo::Region *r = R(1);
    std::string st = S(2);
    int n = atoi(S(3).c_str()), lag = atoi(S(4).c_str());
    bool given = S(5) != "-";
    double m = given ? strtod(S(5).c_str(), nullptr) : 0;
    std::vector<std::vector<float>> vs;
    for (auto &t : split(S(6), ';')) vs.push_back(floats(t));
    static std::vector<std::unique_ptr<Exec>> ex;
    while (ex.size() < (size_t)lag + 1) ex.emplace_back(new Exec());
    ll peak = 0;
    bool dev = st == "cuda" || st == "hip";
    for (int i = 0; i < n; ++i) {
      std::vector<float> f = vs[i % vs.size()];
      Exec *e = ex[i % (lag + 1)].get();
      if (dev) {
        e->done = false;
        e->dur = m * 1000;
        g_cur_exec = e;
        g_cur_is_end = false;
      }
      Apollo::RegionContext *c =
          dev ? r->begin(st == "cuda" ? Apollo::Region::TIMING_CUDA_ASYNC
                                      : Apollo::Region::TIMING_HIP_ASYNC)
          : st == "vec" ? r->begin(f)
                        : r->begin();
      if (st != "vec")
        for (float v : f) r->setFeature(c, v);
      r->getPolicyIndex(c);
      g_cur_is_end = true;
      if (dev) {
        // the execution begun lag executions ago is done by now
        if (i >= lag) ex[(i - lag) % (lag + 1)]->done = true;
        r->end(c);
      } else if (given)
        r->end(c, m);
      else
        r->end(c);
      g_cur_exec = nullptr;
      if (g_live_events > peak) peak = g_live_events;
    }
    if (dev) {
      for (auto &e : ex) e->done = true;
      r->collectPendingContexts();
    }
    x += fmt(",\"n\":%d,\"lag\":%d,\"peak\":%lld,\"lv\":%lld", n, lag, peak,
             g_live_events);
  } else if (op == "rep") {  // rep train|store|load|q|best|dsload R n arg
    Apollo::Region *r = R(2);
    int n = atoi(S(3).c_str());
    for (int i = 0; i < n; ++i) {
      if (S(1) == "train")
        r->train(atoi(S(4).c_str()), true, true);
      else if (S(1) == "store")
        r->model->store(unesc(S(4)));
      else if (S(1) == "load")
        r->model->load(unesc(S(4)));
      else if (S(1) == "q") {
        std::vector<float> f = floats(S(4));
        r->model->getIndex(f);
      } else if (S(1) == "best") {
        std::vector<std::vector<float>> f;
        std::vector<int> p;
        std::map<std::vector<float>, std::pair<int, double>> b;
        r->dataset.findMinMetricPolicyByFeatures(f, p, b);
      } else if (S(1) == "traina")
        Apollo::instance()->train(atoi(S(4).c_str()));
      else if (S(1) == "dsload") {
        Apollo::Dataset d;
        std::ifstream is(unesc(S(4)));
        d.load(is);
      } else if (S(1) == "dsstore") {
        std::ofstream os(unesc(S(4)));
        r->dataset.store(os);
      } else
        _exit(94);
    }
  } else if (op == "seq") {  // seq R features n np : n decisions in order, given
                             // by the places that are not the cyclic successor
    Apollo::Region *r = R(1);
    std::vector<float> f = floats(S(2));
    int n = atoi(S(3).c_str()), np = atoi(S(4).c_str()), prev = -2, brk = 0;
    std::string o;
    for (int i = 0; i < n; ++i) {
      std::vector<float> g = f;
      int p = r->model->getIndex(g);
      if ((i == 0 || p != (prev + 1) % np) && brk++ < 50)
        o += (o.empty() ? "" : ",") + fmt("[%d,%d]", i, p);
      prev = p;
    }
    x += ",\"k\":" + q(fkey(f)) + fmt(",\"n\":%d", n) + ",\"h\":[" + o + "]";
  } else if (op == "clear") {
    R(1)->dataset.clear();
  } else if (op == "merge") {  // merge R1 R2: dataset of R2 into R1
    Apollo::Region *r = R(1);
    auto it = g_regions.find(unesc(S(2)));
    x += ",\"r2\":" + q(it->first);
    r->dataset.insert(it->second.r->dataset);
  } else if (op == "dsload") {  // dsload FILE : dataset file -> entries
    Apollo::Dataset d;
    std::ifstream is(unesc(S(1)));
    bool ok = (bool)is;
    if (ok) d.load(is);
    x += ",\"f\":" + q(unesc(S(1))) + ",\"have\":" + (ok ? "true" : "false") +
         ",\"ents\":" + tuples(d.toVectorOfTuples());
  } else if (op == "dsstore") {
    Apollo::Region *r = R(1);
    std::ofstream os(unesc(S(2)));
    r->dataset.store(os);
  } else if (op == "mload") {  // mload V name np file : through the factory
    g_models[S(1)] = apollo::ModelFactory::createPolicyModel(
        S(2), atoi(S(3).c_str()), unesc(S(4)));
    x += ",\"m\":" + q(S(1));
  } else if (op == "mq") {
    std::vector<float> f = floats(S(2));
    std::string k = fkey(f);
    int p = g_models[S(1)]->getIndex(f);
    x += ",\"m\":" + q(S(1)) + ",\"k\":" + q(k) + fmt(",\"p\":%d", p);
  } else if (op == "mstore") {
    g_models[S(1)]->store(unesc(S(2)));
    x += ",\"m\":" + q(S(1));
  } else if (op == "mtrainable") {
    x += ",\"m\":" + q(S(1)) + ",\"t\":" +
         (g_models[S(1)]->isTrainable() ? "true" : "false");
  } else if (op == "mdel") {
    g_models.erase(S(1));
    return true;
  } else if (op == "callpath") {
    x += ",\"id\":" + q(Apollo::instance()->getCallpathOffset());
  } else if (op == "instance") {
    x += fmt(",\"rank\":%d,\"size\":%d", Apollo::instance()->mpiRank,
             Apollo::instance()->mpiSize);
  } else if (op == "cut") {  // cut FROM TO N : first N bytes (all if negative)
    std::ifstream is(unesc(S(1)), std::ios::binary);
    std::stringstream ss;
    ss << is.rdbuf();
    std::string t = ss.str();
    ll n = atoll(S(3).c_str());
    if (n >= 0 && (size_t)n < t.size()) t.resize(n);
    std::ofstream os(unesc(S(2)), std::ios::binary);
    os.write(t.data(), t.size());
    return true;
  } else if (op == "mkdir") {
    mkdir(unesc(S(1)).c_str(), 0755);
    return true;
  } else if (op == "write") {  // write FILE TEXT (escaped)
    std::ofstream os(unesc(S(1)));
    os << unesc(S(2));
    return true;
#ifdef DRV_KOKKOS
  } else if (op == "kargs") {
    std::vector<std::string> l = split(unesc(S(1)), ' ');
    std::vector<char *> v;
    for (auto &t : l) v.push_back(strdup(t.c_str()));
    v.push_back(nullptr);
    kokkosp_parse_args((int)l.size(), v.data());
    return true;
  } else if (op == "kinit") {
    kokkosp_init_library(0, 20200625, 0, nullptr);
    return true;
  } else if (op == "kfini") {
    kokkosp_finalize_library();
    return true;
  } else if (op == "kfence") {
    KT::ToolProgrammingInterface t;
    memset(&t, 0, sizeof t);
    t.fence = note_fence;
    kokkosp_provide_tool_programming_interface(1, t);
    return true;
  } else if (op == "kpar") {  // kpar for|scan|reduce DEV : one parallel region
    uint64_t k = 77;
    uint32_t dev = atoi(S(2).c_str());
    g_fences.clear();
    if (S(1) == "for") {
      kokkosp_begin_parallel_for("k", dev, &k);
      kokkosp_end_parallel_for(k);
    } else if (S(1) == "scan") {
      kokkosp_begin_parallel_scan("k", dev, &k);
      kokkosp_end_parallel_scan(k);
    } else {
      kokkosp_begin_parallel_reduce("k", dev, &k);
      kokkosp_end_parallel_reduce(k);
    }
    std::string o;
    for (auto d : g_fences) o += (o.empty() ? "" : ",") + fmt("%u", d);
    x += ",\"fences\":[" + o + "]";
  } else if (op == "kdecl") {
    kdecl(a);
    return true;
  } else if (op == "kreq") {
    x += kreq(a);
  } else if (op == "kend") {
    kokkosp_end_context(strtoull(S(1).c_str(), nullptr, 10));
  } else if (op == "kloop") {  // kloop CTX ctxvars tunvars n
    int n = atoi(S(4).c_str());
    ll id = atoll(S(1).c_str());
    for (int i = 0; i < n; ++i) {
      auto b = a;
      b[1] = fmt("%lld", id + i);
      kreq(b);
      kokkosp_end_context(id + i);
    }
#endif
#ifdef DRV_MPI
  } else if (op == "barrier") {
    MPI_Barrier(MPI_COMM_WORLD);
    return true;
#endif
  } else if (op == "exit") {  // exit [drain order c1,c2,..] [polls]
    if (a.size() > 1 && S(1) != "-") g_drain = split(S(1), ',');
    if (a.size() > 2) g_drain_polls = atoi(S(2).c_str());
    for (auto &e : g_execs)  // whatever is not listed finishes at the end
      g_drain.push_back(e.first);
    g_draining = true;
    emit("{\"e\":\"exit\"" + diff_state() + "}");
    return false;
  } else
    _exit(94);
  emit(x + diff_state() + "}");
  return true;
}

static void run_script(const std::vector<std::string> &lines)
{
  for (auto &l : lines) {
    auto a = split(l, ' ');
    if (a.empty()) continue;
    if (!run_op(a)) break;
  }
}

int main(int argc, char **argv)
{
  if (argc < 2) return 2;
#ifdef DRV_MPI
  // mpi driver: one script per rank, executed in this process
  MPI_Init(&argc, &argv);
  int rank;
  MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  std::ifstream is(std::string(argv[1]) + "." + std::to_string(rank));
  g_log = open((std::string(argv[2]) + "." + std::to_string(rank)).c_str(),
               O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
  if (argc > 3) {  // output of each rank on its own
    g_only_rank = rank;
    std::string b = std::string(argv[2]) + "." + std::to_string(rank);
    dup2(open((b + ".out").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644), 1);
    dup2(open((b + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644), 2);
  }
  std::vector<std::string> lines;
  std::string l;
  while (std::getline(is, l))
    lines.push_back(l);
  run_script(lines);
  g_fake_clock = false;
  MPI_Barrier(MPI_COMM_WORLD);
  MPI_Finalize();
  return 0;
#else
  std::ifstream is(argv[1]);
  std::string line;
  std::vector<std::string> lines, env;
  std::string dir, log;
  int timeout = 60;
  while (std::getline(is, line)) {
    if (line.compare(0, 4, "run ") == 0) {  // run DIR LOG TIMEOUT
      auto a = split(line, ' ');
      dir = a[1];
      log = a[2];
      timeout = atoi(a[3].c_str());
      lines.clear();
      env.clear();
    } else if (line.compare(0, 4, "env ") == 0) {
      env.push_back(unesc(line.substr(4)));
    } else if (line == "endrun") {
      mkdir(dir.c_str(), 0755);
      fflush(nullptr);
      pid_t pid = fork();
      if (pid == 0) {
        setpgid(0, 0);
        if (chdir(dir.c_str())) _exit(98);
        g_log = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
        int o = open((log + ".out").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        int e = open((log + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(o, 1);
        dup2(e, 2);
        for (auto &kv : env) {
          auto p = kv.find('=');
          setenv(kv.substr(0, p).c_str(), kv.substr(p + 1).c_str(), 1);
        }
        run_script(lines);
        exit(0);
      }
      int st = 0;
      bool hang = false;
      struct timespec t0, t1;
      clock_gettime(CLOCK_MONOTONIC, &t0);
      for (;;) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if (t1.tv_sec - t0.tv_sec > timeout) {
          hang = true;
          kill(-pid, SIGKILL);
          kill(pid, SIGKILL);
          waitpid(pid, &st, 0);
          break;
        }
        usleep((t1.tv_sec == t0.tv_sec && t1.tv_nsec - t0.tv_nsec < 20000000)
                   ? 200
                   : 2000);
      }
      std::string s = hang ? "hang"
                      : WIFEXITED(st)
                          ? (WEXITSTATUS(st) == 0
                                 ? "ok"
                                 : (WEXITSTATUS(st) == 99
                                        ? "crash"
                                        : (WEXITSTATUS(st) >= 94 &&
                                                   WEXITSTATUS(st) <= 98
                                               ? "harness"
                                               : "refused")))
                          : (WTERMSIG(st) == SIGABRT ? "refused" : "crash");
      std::ofstream f(log + ".fin");
      f << s << " " << pid << " " << st << "\n";
    } else
      lines.push_back(line);
  }
  return 0;
#endif
}
