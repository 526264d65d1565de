// Runs plans against one generated package: one simulated thread at a time, failing allocations, filled stacks.
#include "simcpp.h"

#include <date/tz.h>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>

#include <cerrno>
#include <iostream>
#include <memory>
#include <new>
#include <typeinfo>

#include <cxxabi.h>

#include "json_text.h"

#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>

namespace simcpp {

std::string quoted(const std::string& text) { return quote(text); }

// -- memory ---------------------------------------------------------------------------------------------------------

static thread_local bool in_call = false;  // inside of generated code
static long live = 0;                      // blocks
static long allocations = 0;               // made by generated code in this call
static long fail_at = 0;                   // which of them fails; negative: and all after it
static bool failed = false;
static bool runaway = false;
static int heap_fill = 0;                  // what fresh memory holds

static void* allocate(size_t size) {
  if (in_call) {
    ++allocations;
    if (fail_at != 0 && (allocations == fail_at || allocations >= -fail_at && fail_at < 0)) {
      failed = true;
      return nullptr;
    }
    if (size > (size_t(64) << 20)) {
      runaway = true;
      return nullptr;
    }
  }
  void* out = malloc(size ? size : 1);
  if (out != nullptr) {
    ++live;
    if (in_call) {
      memset(out, heap_fill, size < 4096 ? size : 4096);
    }
  }
  return out;
}

// -- scheduler ------------------------------------------------------------------------------------------------------

struct Random {
  uint64_t s;
  uint64_t next() {  // splitmix64
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return next() % n; }
};

struct SimThread {
  sem_t go;
  bool done = false;
};

static const long STEP_LIMIT = 60000000;
static const size_t SWITCH_LIMIT = 600;

static bool active = false;  // simulated threads are running
static std::vector<std::unique_ptr<SimThread>>* threads = nullptr;
static size_t current = 0;
static thread_local bool simulated = false;
static long steps = 0;
static long next_switch = 0;
static bool listed = false;
static std::vector<std::pair<long, size_t>>* list = nullptr;
static size_t list_at = 0;
static uint64_t rate = 1;
static Random rng{0};
static std::vector<std::pair<long, size_t>>* performed = nullptr;
static long waits = 0;
static uint64_t places = 1469598103934665603ull;
static sem_t finished;
static long alone = 0;  // steps of calls outside of simulated threads

static void plan_next() {
  if (listed) {
    next_switch = list_at < list->size() ? (*list)[list_at].first : STEP_LIMIT;
  } else if (performed->size() >= SWITCH_LIMIT) {
    next_switch = STEP_LIMIT;
  } else {
    next_switch = steps + 1 + static_cast<long>(rng.below(2 * rate));
  }
}

[[noreturn]] static void die(const char* why) {
  fprintf(stderr, "simulation: %s\n", why);
  fflush(stderr);
  _exit(70);
}

static std::vector<size_t> runnable(bool others) {
  std::vector<size_t> out;
  for (size_t i = 0; i < threads->size(); ++i) {
    if (!(*threads)[i]->done && !(others && i == current)) {
      out.push_back(i);
    }
  }
  return out;
}

static void hand_over(size_t to) {
  const size_t me = current;
  current = to;
  const bool done = (*threads)[me]->done;
  sem_post(&(*threads)[to]->go);
  if (!done) {
    while (sem_wait(&(*threads)[me]->go) != 0) {
    }
  }
}

struct Quiet {  // the simulator's own work inside of a call
  bool was;
  Quiet() : was(in_call) { in_call = false; }
  ~Quiet() { in_call = was; }
};

// Some other thread goes on, if any can; ``must``: this one cannot.
static bool switch_now(bool must, const void* place) {
  Quiet quiet;
  const std::vector<size_t> choice = runnable(true);
  if (choice.empty()) {
    return !must;
  }
  size_t to;
  if (listed) {
    to = choice[0];
    while (list_at < list->size() && (*list)[list_at].first < steps) {
      ++list_at;
    }
    if (list_at < list->size() && (*list)[list_at].first == steps) {
      const size_t wish = (*list)[list_at].second;
      for (size_t c : choice) {
        if (c == wish) {
          to = wish;
        }
      }
      ++list_at;
    }
  } else {
    to = choice[rng.below(choice.size())];
  }
  performed->push_back({steps, to});
  places = (places ^ (reinterpret_cast<uintptr_t>(place) & 0xFFF)) * 1099511628211ull;
  places = (places ^ to) * 1099511628211ull;
  plan_next();
  hand_over(to);
  return true;
}

static void point(const void* place) {
  if (++steps >= next_switch) {
    if (steps >= STEP_LIMIT) {
      die("too many steps");
    }
    switch_now(false, place);
    if (next_switch <= steps) {
      plan_next();
    }
  }
}

static bool here() { return active && simulated; }

// Wait until the condition holds; other threads go on.
template <typename F>
static void wait_until(F ready) {
  while (!ready()) {
    ++steps;
    if (++waits > 20000 || !switch_now(true, nullptr)) {
      die("threads wait for ever");
    }
  }
  waits = 0;
}

}  // namespace simcpp

extern "C" void __sanitizer_cov_trace_pc() {
  if (!simcpp::in_call) {
    return;
  }
  if (simcpp::active) {
    simcpp::point(__builtin_return_address(0));
  } else if (++simcpp::alone > simcpp::STEP_LIMIT) {
    simcpp::die("a call does not end");
  }
}

extern "C" int __cxa_guard_acquire(long long* guard) {
  volatile unsigned char* bytes = reinterpret_cast<volatile unsigned char*>(guard);
  if (bytes[0]) {
    return 0;
  }
  if (bytes[1]) {
    if (!simcpp::here()) {
      simcpp::die("recursive initialisation");
    }
    simcpp::wait_until([bytes]() { return !bytes[1]; });
    if (bytes[0]) {
      return 0;
    }
  }
  bytes[1] = 1;
  return 1;
}
extern "C" void __cxa_guard_release(long long* guard) {
  unsigned char* bytes = reinterpret_cast<unsigned char*>(guard);
  bytes[1] = 0;
  bytes[0] = 1;
}
extern "C" void __cxa_guard_abort(long long* guard) { reinterpret_cast<unsigned char*>(guard)[1] = 0; }

template <typename F>
static F real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

#define BLOCKING(name, type, attempt)                                          \
  extern "C" int name(type* lock) noexcept {                                   \
    static int (*const original)(type*) = real<int (*)(type*)>(#name);         \
    if (!simcpp::here()) {                                                     \
      return original(lock);                                                   \
    }                                                                          \
    int got = 0;                                                               \
    simcpp::wait_until([&]() { return (got = attempt(lock)) != EBUSY; });      \
    return got;                                                                \
  }
BLOCKING(pthread_mutex_lock, pthread_mutex_t, pthread_mutex_trylock)
BLOCKING(pthread_rwlock_rdlock, pthread_rwlock_t, pthread_rwlock_tryrdlock)
BLOCKING(pthread_rwlock_wrlock, pthread_rwlock_t, pthread_rwlock_trywrlock)

static std::map<pthread_once_t*, int>* onces = nullptr;

extern "C" int pthread_once(pthread_once_t* once, void (*run)()) {
  static int (*const original)(pthread_once_t*, void (*)()) = real<int (*)(pthread_once_t*, void (*)())>("pthread_once");
  if (!simcpp::here()) {
    return original(once, run);
  }
  simcpp::Quiet quiet;
  if (onces == nullptr) {
    onces = new std::map<pthread_once_t*, int>();
  }
  if (*once == 2) {
    return 0;
  }
  simcpp::wait_until([&]() { return (*onces)[once] == 0; });
  if (*once == 2) {
    return 0;
  }
  (*onces)[once] = 1;
  struct Undo {
    pthread_once_t* once;
    ~Undo() { (*onces)[once] = 0; }
  } undo{once};
  {
    simcpp::in_call = quiet.was;
    run();
    simcpp::in_call = false;
  }
  *once = 2;  // as glibc marks it
  return 0;
}

void* operator new(size_t size) {
  void* out = simcpp::allocate(size);
  if (out == nullptr) {
    throw std::bad_alloc();
  }
  return out;
}
void* operator new[](size_t size) { return operator new(size); }
void* operator new(size_t size, const std::nothrow_t&) noexcept { return simcpp::allocate(size); }
void* operator new[](size_t size, const std::nothrow_t&) noexcept { return simcpp::allocate(size); }
void operator delete(void* p) noexcept {
  if (p != nullptr) {
    --simcpp::live;
    free(p);
  }
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }

namespace date {
const time_zone* locate_zone(const std::string& name) {
  static const std::vector<time_zone>* const zones = []() {
    auto* out = new std::vector<time_zone>();
    for (const char* known : {"UTC", "Europe/Zurich", "America/New_York", "Asia/Kolkata", "Etc/GMT+5", "GMT",
                              "Europe/Berlin"}) {
      out->emplace_back(known);
    }
    return out;
  }();
  for (const time_zone& zone : *zones) {
    if (zone.name() == name) {
      return &zone;
    }
  }
  throw std::runtime_error(name + " not found in timezone database");
}
}  // namespace date

namespace simcpp {

// -- calls ----------------------------------------------------------------------------------------------------------

__attribute__((noinline, no_sanitize("address"))) static void fill_stack(int byte) {
  char area[192 * 1024];
  memset(area, byte, sizeof(area));
  asm volatile("" : : "r"(area) : "memory");
}

struct Graph {
  void* graph;
  Graph() : graph(entry.create()) {}
  ~Graph() { entry.destroy(graph); }
  Graph(const Graph&) = delete;
  std::string text() const {
    std::string out;
    entry.dump(graph, &out);
    return out;
  }
};

static std::string thrown() {
  std::string out = "?";
  const std::type_info* type = abi::__cxa_current_exception_type();
  if (type != nullptr) {
    int status = 0;
    char* name = abi::__cxa_demangle(type->name(), nullptr, nullptr, &status);
    if (name != nullptr) {
      out = name;
      free(name);
    }
  }
  return out;
}

struct Called {
  std::string threw;  // and what
  bool ran_away = false;
  Outcome outcome;
  std::string graph;
  std::string value;
  bool has_value = false;

  std::string json() const {
    std::string out = "{";
    if (!threw.empty()) {
      out += "\"threw\":" + quoted(threw) + ",\"runaway\":" + (ran_away ? "true" : "false");
    } else if (has_value) {
      out += "\"value\":" + quoted(value);
    } else {
      out += std::string("\"accepted\":") + (outcome.accepted ? "true" : "false") + ",\"full\":" +
             (outcome.full ? "true" : "false") + ",\"errors\":[";
      for (size_t i = 0; i < outcome.errors.size(); ++i) {
        out += (i ? ",[" : "[") + quoted(outcome.errors[i].first) + "," + quoted(outcome.errors[i].second) + "]";
      }
      out += "]";
      if (outcome.accepted) {
        out += ",\"graph\":" + quoted(graph);
      }
    }
    return out + "}";
  }
};

static void begin_call(int fill, long fail) {
  heap_fill = fill;
  if (!active) {
    alone = 0;
    allocations = 0;
    fail_at = fail;
    failed = false;
    runaway = false;
  }
  fill_stack(fill);
}

static Called call_parse(const Json::Value& doc, const std::string& ref, size_t cap, const Graph& graph, int fill,
                         long fail = 0) {
  Called out;
  void* errors = nullptr;
  try {
    begin_call(fill, fail);
    in_call = true;
    errors = entry.parse(doc, ref, graph.graph, cap);
    in_call = false;
  } catch (const std::exception& exc) {
    in_call = false;
    fail_at = 0;
    out.threw = thrown() + ": " + exc.what();
    out.ran_away = runaway;
    return out;
  }
  fail_at = 0;
  entry.outcome(errors, &out.outcome);
  if (out.outcome.accepted) {
    out.graph = graph.text();
  }
  return out;
}

static Called call_serialize(const Graph& graph, int fill, long fail = 0) {
  Called out;
  try {
    begin_call(fill, fail);
    in_call = true;
    Json::Value value = entry.serialize(graph.graph);
    in_call = false;
    fail_at = 0;
    out.has_value = true;
    write_json(value, &out.value);
  } catch (const std::exception& exc) {
    in_call = false;
    fail_at = 0;
    out.threw = thrown() + ": " + exc.what();
    out.ran_away = runaway;
  }
  return out;
}

static std::string decode64(const std::string& text) {
  std::string out;
  uint32_t bits = 0;
  int n = 0;
  for (char c : text) {
    int v = c >= 'A' && c <= 'Z'   ? c - 'A'
            : c >= 'a' && c <= 'z' ? c - 'a' + 26
            : c >= '0' && c <= '9' ? c - '0' + 52
            : c == '+'             ? 62
            : c == '/'             ? 63
                                   : -1;
    if (v < 0) {
      continue;
    }
    bits = bits << 6 | static_cast<uint32_t>(v);
    n += 6;
    if (n >= 8) {
      n -= 8;
      out += static_cast<char>(bits >> n & 0xFF);
    }
  }
  return out;
}

static std::string text_of(const Json::Value& value) {
  std::string out;
  write_json(value, &out);
  return out;
}

static const char* flag(bool b) { return b ? "true" : "false"; }

// Documents read (and written again) one after the other, each several times.
static std::string run_docs(const Json::Value& request) {
  std::string out = "[";
  const Json::Value& items = request["items"];
  for (Json::ArrayIndex i = 0; i < items.size(); ++i) {
    const Json::Value& item = items[i];
    out += i ? "," : "";
    Json::Value doc;
    if (!read_json(decode64(item["text"].asString()), &doc)) {
      out += "{\"state\":\"not-json\"}";
      continue;
    }
    const std::string before = text_of(doc);
    out += "{\"state\":\"read\",\"doc\":" + quoted(before) + ",\"runs\":[";
    const Json::Value& fills = item["fills"];
    for (Json::ArrayIndex k = 0; k < fills.size(); ++k) {
      Graph graph;
      const int fill = static_cast<int>(fills[k].asInt64());
      Called parsed = call_parse(doc, item["ref"].asString(), item["cap"].asUInt64(), graph, fill);
      out += std::string(k ? "," : "") + "{\"parse\":" + parsed.json();
      if (text_of(doc) != before) {
        out += ",\"changed\":" + quoted(text_of(doc));
      }
      if (parsed.threw.empty() && parsed.outcome.accepted) {
        Called wrote = call_serialize(graph, fill);
        out += ",\"serialize\":" + wrote.json();
        const std::string after = graph.text();
        if (after != parsed.graph) {
          out += ",\"graph_changed\":" + quoted(after);
        }
      }
      out += "}";
    }
    out += "]}";
  }
  return out + "]";
}

struct Docs {
  std::vector<Json::Value> docs;
  std::vector<std::string> texts;

  explicit Docs(const Json::Value& request) {
    const Json::Value& given = request["docs"];
    for (Json::ArrayIndex i = 0; i < given.size(); ++i) {
      Json::Value doc;
      if (!read_json(decode64(given[i].asString()), &doc)) {
        die("a document of the plan is not JSON");
      }
      docs.push_back(doc);
      texts.push_back(text_of(doc));
    }
  }
};

// A graph to be written, or null when the document cannot be read.
static std::unique_ptr<Graph> graph_of(const Json::Value& doc) {
  std::unique_ptr<Graph> graph(new Graph());
  Called parsed = call_parse(doc, "#", 1, *graph, 0);
  if (!parsed.threw.empty() || !parsed.outcome.accepted) {
    graph.reset();
  }
  return graph;
}

static std::string plus(std::string object, const char* key, const std::string& value) {
  object.back() = ',';
  return object + "\"" + key + "\":" + value + "}";
}

static std::string run_job(const Json::Value& job, const Docs& docs, const Graph* given, long fail, long* left) {
  char* text = nullptr;  // not counted
  const size_t at = job["doc"].asUInt64();
  const int fill = static_cast<int>(job["fill"].asInt64());
  const long before = live;
  {
    std::string out;
    if (job["op"].asString() == "serialize") {
      if (given == nullptr) {
        out = "{\"rejected\":true}";
      } else {
        const std::string graph_before = given->text();
        out = call_serialize(*given, fill, fail).json();
        const std::string graph_after = given->text();
        if (graph_after != graph_before) {
          out = plus(out, "graph_changed", quoted(graph_before + " -> " + graph_after));
        }
      }
    } else {
      Graph graph;
      out = call_parse(docs.docs.at(at), job["ref"].asString(), job["cap"].asUInt64(), graph, fill, fail).json();
    }
    const std::string after = text_of(docs.docs.at(at));
    if (after != docs.texts.at(at)) {
      out = plus(out, "changed", quoted(after));
    }
    text = strdup(out.c_str());
  }
  *left = live - before;
  std::string out(text);
  free(text);
  return out;
}

// A sequence of calls, some with a failing allocation.
static std::string run_calls(const Json::Value& request) {
  std::string out = "[";
  const Docs docs(request);
  const Json::Value& calls = request["calls"];
  for (Json::ArrayIndex i = 0; i < calls.size(); ++i) {
    const Json::Value& job = calls[i];
    long left = 0;
    std::unique_ptr<Graph> given;
    if (job["op"].asString() == "serialize") {
      given = graph_of(docs.docs.at(job["doc"].asUInt64()));
    }
    allocations = 0;
    failed = false;
    const std::string text = run_job(job, docs, given.get(), job["fail"].asInt64(), &left);
    out += std::string(i ? "," : "") + "{\"outcome\":" + text + ",\"made\":" + std::to_string(allocations) +
           ",\"hit\":" + flag(failed) + ",\"left\":" + std::to_string(left) + "}";
  }
  return out + "]";
}

// -- simulated threads ----------------------------------------------------------------------------------------------

struct Work {
  size_t at;
  const Json::Value* jobs;
  const Docs* docs;
  const std::map<size_t, std::unique_ptr<Graph>>* shared;
  std::string out;
};

static void* work(void* arg) {
  Work* mine = static_cast<Work*>(arg);
  SimThread* me = (*threads)[mine->at].get();
  while (sem_wait(&me->go) != 0) {
  }
  simulated = true;
  for (Json::ArrayIndex i = 0; i < mine->jobs->size(); ++i) {
    const Json::Value& job = (*mine->jobs)[i];
    const size_t doc = job["doc"].asUInt64();
    long left = 0;
    std::unique_ptr<Graph> own;
    const Graph* given = nullptr;
    if (job["op"].asString() == "serialize") {
      if (job["shared"].asBool()) {
        given = mine->shared->at(doc).get();
      } else {
        own = graph_of(mine->docs->docs.at(doc));
        given = own.get();
      }
    }
    mine->out += (i ? "," : "") + run_job(job, *mine->docs, given, 0, &left);
  }
  simulated = false;
  me->done = true;
  if (runnable(true).empty()) {
    active = false;
    sem_post(&finished);
  } else {
    ++steps;
    switch_now(true, nullptr);
  }
  return nullptr;
}

static std::string run_threads(const Json::Value& request) {
  const Docs docs(request);
  const Json::Value& jobs = request["threads"];
  const Json::Value& schedule = request["schedule"];
  std::vector<std::unique_ptr<SimThread>> all;
  std::vector<std::pair<long, size_t>> made, wanted;
  std::map<size_t, std::unique_ptr<Graph>> shared;
  std::vector<Work> works(jobs.size());
  for (Json::ArrayIndex t = 0; t < jobs.size(); ++t) {
    all.emplace_back(new SimThread());
    sem_init(&all.back()->go, 0, 0);
    works[t] = Work{t, &jobs[t], &docs, &shared, ""};
    for (Json::ArrayIndex i = 0; i < jobs[t].size(); ++i) {
      const Json::Value& job = jobs[t][i];
      const size_t doc = job["doc"].asUInt64();
      if (job["op"].asString() == "serialize" && job["shared"].asBool() && !shared.count(doc)) {
        shared[doc] = graph_of(docs.docs.at(doc));
      }
    }
  }
  sem_init(&finished, 0, 0);
  threads = &all;
  performed = &made;
  list = &wanted;
  listed = schedule.isMember("list");
  if (listed) {
    const Json::Value& given = schedule["list"];
    for (Json::ArrayIndex i = 0; i < given.size(); ++i) {
      wanted.push_back({static_cast<long>(given[i][0u].asInt64()), given[i][1u].asUInt64()});
    }
  } else {
    rng.s = schedule["seed"].asUInt64();
    rate = schedule["rate"].asUInt64();
  }
  steps = 0;
  plan_next();
  std::vector<pthread_t> handles(works.size());
  pthread_attr_t attr;
  pthread_attr_init(&attr);
  pthread_attr_setstacksize(&attr, 1 << 20);
  for (size_t t = 0; t < works.size(); ++t) {
    pthread_create(&handles[t], &attr, work, &works[t]);
  }
  current = 0;
  active = true;
  sem_post(&all[0]->go);
  while (sem_wait(&finished) != 0) {
  }
  for (pthread_t handle : handles) {
    pthread_join(handle, nullptr);
  }
  std::string out = "{\"results\":[";
  for (size_t t = 0; t < works.size(); ++t) {
    out += (t ? ",[" : "[") + works[t].out + "]";
  }
  out += "],\"performed\":[";
  for (size_t i = 0; i < made.size(); ++i) {
    out += (i ? ",[" : "[") + std::to_string(made[i].first) + "," + std::to_string(made[i].second) + "]";
  }
  return out + "],\"steps\":" + std::to_string(steps) + ",\"places\":\"" + std::to_string(places) + "\"}";
}

// -- requests: each is served by a process of its own -----------------------------------------------------------------

static void write_all(int fd, const std::string& text) {
  size_t at = 0;
  while (at < text.size()) {
    ssize_t n = ::write(fd, text.data() + at, text.size() - at);
    if (n <= 0) {
      _exit(71);
    }
    at += static_cast<size_t>(n);
  }
}

static std::string read_all(int fd) {
  std::string out;
  char buffer[65536];
  for (;;) {
    ssize_t n = ::read(fd, buffer, sizeof(buffer));
    if (n < 0 && errno == EINTR) {
      continue;
    }
    if (n <= 0) {
      return out;
    }
    out.append(buffer, static_cast<size_t>(n));
  }
}

struct Request {
  const Json::Value* request;
  std::string out;
};

static void* run_request(void* arg) {
  Request& work = *static_cast<Request*>(arg);
  const Json::Value& request = *work.request;
  const std::string op = request["op"].asString();
  work.out = op == "docs"      ? run_docs(request)
             : op == "calls"   ? run_calls(request)
             : op == "threads" ? run_threads(request)
                               : "null";
  return nullptr;
}

// What is left on the stack must not depend on where the stack is.
static void on_fixed_stack(Request* work) {
  const size_t size = 8 << 20;
  void* stack = mmap(reinterpret_cast<void*>(0x200000000000), size, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
  pthread_attr_t attr;
  pthread_t thread;
  if (stack == MAP_FAILED || pthread_attr_init(&attr) != 0 || pthread_attr_setstack(&attr, stack, size) != 0 ||
      pthread_create(&thread, &attr, run_request, work) != 0) {
    die("no stack");
  }
  pthread_join(thread, nullptr);
}

static std::string serve(const std::string& line) {
  int answer[2], complaint[2];
  if (pipe(answer) != 0 || pipe(complaint) != 0) {
    die("no pipes");
  }
  const pid_t pid = fork();
  if (pid == 0) {
    close(answer[0]);
    close(complaint[0]);
    dup2(complaint[1], 2);
    alarm(60);
    Json::Value request;
    if (!read_json(line, &request)) {
      die("bad request");
    }
    Request work{&request, ""};
    on_fixed_stack(&work);
    write_all(answer[1], work.out);
    _exit(0);
  }
  close(answer[1]);
  close(complaint[1]);
  // what is complained about is little
  const std::string out = read_all(answer[0]);
  const std::string words = read_all(complaint[0]);
  close(answer[0]);
  close(complaint[0]);
  int status = 0;
  waitpid(pid, &status, 0);
  if (status != 0) {
    return "{\"died\":" + quoted("status " + std::to_string(status) + ": " + words.substr(0, 3000)) + "}";
  }
  return out;
}

}  // namespace simcpp

int main(int, char** argv) {
  // the same addresses in every process, where the system allows it
  const int persona = personality(0xffffffff);
  if (persona != -1 && (persona & ADDR_NO_RANDOMIZE) == 0 && personality(persona | ADDR_NO_RANDOMIZE) != -1) {
    execv("/proc/self/exe", argv);
  }
  std::string line;
  while (std::getline(std::cin, line)) {
    std::cout << simcpp::serve(line) << std::endl;
  }
  return 0;
}
