// The emulated GPU: memory, streams, a controlled scheduler for the threads of
// a kernel and the exploration of its schedules.
//
// * Every thread of a launch is a fiber.  A fiber runs on its own until its
//   next visible operation (an atomic, or a plain read of memory on which
//   other threads do atomics), a barrier or its end.
// * All plain accesses go through the hooks below: bounds, address space and
//   data races (happens-before within a launch: barriers of a block order its
//   threads, nothing orders threads of different blocks).  Without races only
//   the order of visible operations matters.
// * explore_launch() enumerates one schedule per class of equivalent orders
//   of the visible operations (dynamic partial order reduction with sleep
//   sets and source sets; stateless: every schedule is a new run of the
//   kernel from the memory before the launch).
// * The distinct memories after a launch are the branches of the host code,
//   which is run again for every one of them.
#include <dlfcn.h>
#include <link.h>
#include <sys/mman.h>
#include <cstdarg>
#include <deque>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include "tf_shim.h"

namespace {

using emu::Kind;

struct Fault { std::string what; };
struct Pruned {};

std::string format(const char* f, ...) {
  char b[1024];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof(b), f, a);
  va_end(a);
  return b;
}

// ---------------------------------------------------------------- memory

const size_t BLOCK = 256;
struct Arena {
  char* base = nullptr;
  size_t size = 0, top = 0;
  struct Alloc { size_t start, bytes; std::string label; bool live; int owner; };
  std::vector<Alloc> allocs;
  std::vector<int> map;  // per BLOCK bytes

  void create(size_t bytes, uintptr_t where) {
    base = (char*)mmap((void*)where, bytes, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE |
                       MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED) { perror("mmap"); abort(); }
    size = bytes;
    map.assign(bytes / BLOCK + 1, -1);
  }
  bool has(const void* p) const {
    return (const char*)p >= base && (const char*)p < base + size;
  }
  void* get(size_t bytes, const std::string& label, int owner, int poison) {
    size_t room = (bytes + BLOCK - 1) / BLOCK * BLOCK + BLOCK;
    if (room == BLOCK) room += BLOCK;
    if (top + room + BLOCK > size) throw Fault{"out of emulated memory"};
    size_t start = top + BLOCK;  // red zone before and after
    for (size_t b = start / BLOCK; b < (start + room - BLOCK) / BLOCK; ++b)
      map[b] = (int)allocs.size();
    memset(base + top, poison, room + BLOCK);
    allocs.push_back(Alloc{start, bytes, label, true, owner});
    top = start + room - BLOCK;
    return base + start;
  }
  Alloc* find(const void* p) {
    int i = map[((const char*)p - base) / BLOCK];
    return i < 0 ? nullptr : &allocs[i];
  }
  void reset() {
    for (auto& a : allocs)
      for (size_t b = a.start / BLOCK; b <= (a.start + a.bytes) / BLOCK; ++b)
        map[b] = -1;
    allocs.clear();
    top = 0;
  }
};
Arena device, shared, host;

uint64_t hash_bytes(const char* p, size_t n, uint64_t h = 1469598103934665603ull) {
  size_t i = 0;
  for (; i + 8 <= n; i += 8) {
    uint64_t v;
    memcpy(&v, p + i, 8);
    h = (h ^ v) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
  }
  for (; i < n; ++i) h = (h ^ (unsigned char)p[i]) * 1099511628211ull;
  return h ^ (h >> 32);
}

struct Snapshot {
  std::vector<char> mem;
  uint64_t hash;
};
typedef std::shared_ptr<Snapshot> SnapshotPtr;
SnapshotPtr snapshot() {
  auto s = std::make_shared<Snapshot>();
  s->mem.assign(device.base, device.base + device.top);
  s->hash = hash_bytes(s->mem.data(), s->mem.size());
  return s;
}
void restore(const Snapshot& s) { memcpy(device.base, s.mem.data(), s.mem.size()); }

// ---------------------------------------------------------- configuration

struct Settings {
  int sms = 2, blocks_per_sm = 8, explore = 1, reverse = 0, lazy = 0,
      poison = 0xFF;
  long max_runs = 20000, max_outcomes = 20000;
  long step_limit = 200000000;
} cfg;

struct Statistics {
  long launches = 0, runs = 0, events = 0, threads = 0, blocked = 0, capped = 0,
      barriers = 0, accesses = 0, host_runs = 0, outcomes = 0, max_runs = 0;
} stats;

// ------------------------------------------------------------- the launch

struct Access { int tid = -1, block = 0, epoch = 0; };
struct Cell {
  uint32_t stamp = 0;
  Access w, r[4], a[4];
};
Cell *cells_device, *cells_shared;
Cell* make_cells(size_t bytes) {
  void* p = mmap(nullptr, bytes / 4 * sizeof(Cell), PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); abort(); }
  return (Cell*)p;
}
uint32_t stamp = 0;

enum State { NEW, RUNNABLE, PENDING, BARRIER, DONE };
struct Pending { const char* address; int size; Kind kind; };
struct Thread {
  State state;
  void* sp;
  char* stack;
  Pending pending;
  const char* file;
  int line;
};
struct Block { int live, waiting, epoch; void* dynamic;
  std::map<std::string, void*> statics; };
struct Event { int tid; Pending op; bool observed; int block; };  // block>=0: barrier

const size_t STACK = 64 * 1024;
std::vector<char*> stack_pool;
std::vector<Thread> threads;
std::vector<Block> blocks;
std::vector<Event> trace;
std::deque<int> run_queue;
std::set<int> pending_set;
void* scheduler_sp;
int current = -1;
bool in_kernel = false, stop_at_visible = false;
std::string kernel_fault, host_fault_text;
emu::Config* config = nullptr;
emu::Body* body = nullptr;
const char* kernel_name = "";
size_t nthreads_block;
long steps;
std::set<size_t> visible_reads;  // granules of the device arena
bool new_visible_reads;
char *image_start = nullptr, *image_end = nullptr;

extern "C" void emu_switch(void** from, void* to);
asm(R"(
.text
.globl emu_switch
.hidden emu_switch
.type emu_switch,@function
emu_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size emu_switch,.-emu_switch
)");

char* get_stack() {
  if (stack_pool.empty()) {
    const int n = 64;
    char* p = (char*)mmap(nullptr, STACK * n, PROT_READ | PROT_WRITE,
                          MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); abort(); }
    for (int i = n - 1; i >= 0; --i) stack_pool.push_back(p + i * STACK);
  }
  char* s = stack_pool.back();
  stack_pool.pop_back();
  return s;
}

void to_scheduler() {
  emu_switch(&threads[current].sp, scheduler_sp);
}

void kernel_fault_now(const std::string& what) {
  if (kernel_fault.empty())
    kernel_fault = format("%s, block %d, thread %d: ", kernel_name,
                          (int)(current / nthreads_block),
                          (int)(current % nthreads_block)) + what;
  to_scheduler();  // never resumed
}

void fiber_main() {
  body->run();
  threads[current].state = DONE;
  to_scheduler();
  abort();
}

std::string describe(Arena& arena, const void* p) {
  Arena::Alloc* a = arena.find(p);
  if (!a) return format("%p (outside of every allocation)", p);
  return format("byte %ld of %s (%zu bytes)", (long)((char*)p - arena.base - a->start),
                a->label.c_str(), a->bytes);
}

bool unordered(const Access& o, const Access& n) {
  return o.tid >= 0 && o.tid != n.tid &&
         (o.block != n.block || o.epoch == n.epoch);
}

// Keeps, of all accesses, enough to find a conflict with any later one: two
// threads of the first block which accessed the cell and two of another one.
void remember(Access* list, const Access& n) {
  int base = (list[0].tid < 0 || list[0].block == n.block) ? 0 : 2;
  Access *a = &list[base], *b = &list[base + 1];
  if (a->tid >= 0 && a->block != n.block) {  // slot of an older other block
    a->tid = b->tid = -1;
  }
  if (a->tid == n.tid) { *a = n; return; }
  if (b->tid >= 0 && b->tid == n.tid) { *b = n; return; }
  if (a->tid < 0) { *a = n; return; }
  // replace the older one
  if (b->tid < 0 || b->epoch <= a->epoch) *b = n; else *a = n;
}

enum Mode { READ_, WRITE_, ATOMIC_ };

void race(Arena& arena, const char* p, const Access& o, const char* mine,
          const char* theirs) {
  kernel_fault_now(format(
      "data race: %s of %s is not ordered with the %s by block %d, thread %d",
      mine, describe(arena, p).c_str(), theirs, o.block,
      (int)(o.tid % nthreads_block)));
}

void weak(Arena& arena, const char* p) {
  if (&arena != &device) return;
  size_t g = (p - arena.base) / 4;
  if (visible_reads.insert(g).second) new_visible_reads = true;
}

void check_cell(Arena& arena, Cell* cells, const char* p, Mode mode) {
  Cell& c = cells[(p - arena.base) / 4];
  if (c.stamp != stamp) { c = Cell(); c.stamp = stamp; }
  Access n;
  n.tid = current;
  n.block = (int)(current / nthreads_block);
  n.epoch = blocks[n.block].epoch;
  if (unordered(c.w, n))
    race(arena, p, c.w, mode == WRITE_ ? "the write" :
         mode == READ_ ? "the read" : "the atomic operation", "write");
  if (mode != READ_) {
    for (auto& r : c.r)
      if (unordered(r, n)) {
        if (mode == WRITE_) race(arena, p, r, "the write", "read");
        else weak(arena, p);
      }
  }
  if (mode != ATOMIC_) {
    for (auto& a : c.a)
      if (unordered(a, n)) {
        if (mode == WRITE_) race(arena, p, a, "the write", "atomic operation");
        else weak(arena, p);
      }
  }
  if (mode == WRITE_) c.w = n;
  else remember(mode == READ_ ? c.r : c.a, n);
}

void visible(const char* p, int size, Kind kind) {
  if (!stop_at_visible) return;
  Thread& t = threads[current];
  t.pending = Pending{p, size, kind};
  t.state = PENDING;
  pending_set.insert(current);
  to_scheduler();
}

void kernel_access(const char* p, size_t size, Mode mode, Kind kind) {
  ++stats.accesses;
  if (++steps > cfg.step_limit) kernel_fault_now("does not come to an end");
  Thread& t = threads[current];
  if (p >= t.stack && p < t.stack + STACK) return;
  if (body && p >= (char*)body && p + size <= (char*)body + body->size &&
      mode == READ_) return;
  Arena* arena;
  if (device.has(p)) arena = &device;
  else if (shared.has(p)) arena = &shared;
  else if (p >= image_start && p < image_end) return;
  else {
    kernel_fault_now(format("%s of %p, which is not device memory%s",
        mode == READ_ ? "read" : "write", p,
        host.has(p) ? (" but host memory, " + describe(host, p)).c_str() : ""));
    return;
  }
  Arena::Alloc* a = arena->find(p);
  if (!a || p < arena->base + a->start ||
      p + size > arena->base + a->start + a->bytes)
    kernel_fault_now(format("out of bounds %s of %zu bytes at %s",
        mode == READ_ ? "read" : "write", size, describe(*arena, p).c_str()));
  if (arena == &shared && a->owner != (int)(current / nthreads_block))
    kernel_fault_now("access to the shared memory of another block");
  if (mode == READ_ && arena == &device && !visible_reads.empty()) {
    for (size_t g = (p - arena->base) / 4; g <= (p + size - 1 - arena->base) / 4; ++g)
      if (visible_reads.count(g)) {
        visible(p, (int)size, emu::READ);
        trace.push_back(Event{current, Pending{p, (int)size, emu::READ}, true, -1});
        break;
      }
  }
  Cell* cells = arena == &device ? cells_device : cells_shared;
  for (size_t o = 0; o < size; o += 4 - ((size_t)(p + o - arena->base) & 3))
    check_cell(*arena, cells, p + o, mode);
}

void host_access(const char* p, size_t size, bool write) {
  if (!host_fault_text.empty()) return;
  if (device.has(p)) {
    host_fault_text = "the host dereferences device memory, " + describe(device, p);
  } else if (host.has(p)) {
    Arena::Alloc* a = host.find(p);
    if (!a || !a->live || p + size > host.base + a->start + a->bytes)
      host_fault_text = std::string("the host accesses ") +
          (a && !a->live ? "freed " : "") + "host memory out of bounds, " +
          describe(host, p);
  }
}

inline void on_access(const void* p, size_t size, bool write) {
  if (current >= 0) kernel_access((const char*)p, size, write ? WRITE_ : READ_, emu::READ);
  else if (in_kernel) return;
  else host_access((const char*)p, size, write);
}

void release_barrier(int b) {
  Block& block = blocks[b];
  int first = b * (int)nthreads_block;
  const char* file = nullptr;
  int line = 0;
  for (int i = first; i < first + (int)nthreads_block; ++i) {
    Thread& t = threads[i];
    if (t.state != BARRIER) continue;
    if (!file) { file = t.file; line = t.line; }
    else if (line != t.line || strcmp(file, t.file)) {
      current = i;
      if (kernel_fault.empty())
        kernel_fault = format("%s, block %d: threads wait at different barriers, "
                              "lines %d and %d", kernel_name, b, line, t.line);
      current = -1;
      return;
    }
    t.state = RUNNABLE;
    if (cfg.reverse) run_queue.push_front(i); else run_queue.push_back(i);
  }
  block.waiting = 0;
  ++block.epoch;
  ++stats.barriers;
  trace.push_back(Event{-1, Pending{}, false, b});
}

// Runs one thread to its next stop.
void step(int i) {
  Thread& t = threads[i];
  if (t.state == NEW) {
    t.stack = get_stack();
    void** top = (void**)(((uintptr_t)t.stack + STACK) & ~(uintptr_t)15);
    *--top = nullptr;
    *--top = (void*)fiber_main;
    for (int k = 0; k < 6; ++k) *--top = nullptr;
    t.sp = top;
  }
  t.state = RUNNABLE;
  current = i;
  emu_switch(&scheduler_sp, t.sp);
  current = -1;
  if (!kernel_fault.empty()) return;
  int b = i / (int)nthreads_block;
  if (t.state == DONE) {
    stack_pool.push_back(t.stack);
    t.stack = nullptr;
    --blocks[b].live;
  } else if (t.state == BARRIER) {
    ++blocks[b].waiting;
  }
  if (blocks[b].live > 0 && blocks[b].waiting == blocks[b].live) release_barrier(b);
}

struct SleepOp { Pending op; bool observed; };
struct Frame {
  int chosen = -1;
  size_t event = 0;                    // index in the trace
  std::set<int> backtrack, done;
  std::map<int, SleepOp> sleep;        // at the start of the frame
  std::map<int, SleepOp> explored;     // threads done, with what they did
};
std::vector<Frame> frames;

bool commute_class(Kind k, Kind l) {
  auto c = [](Kind k) {
    switch (k) {
      case emu::ADD: case emu::SUB: return 1;
      case emu::MIN: return 2;
      case emu::MAX: return 3;
      case emu::AND: return 4;
      case emu::OR: return 5;
      case emu::XOR: return 6;
      default: return 0;
    }
  };
  return c(k) && c(k) == c(l);
}

bool dependent(const Pending& a, bool ao, const Pending& b, bool bo) {
  if (a.address + a.size <= b.address || b.address + b.size <= a.address) return false;
  if (a.kind == emu::READ && b.kind == emu::READ) return false;
  if (!ao && !bo && a.address == b.address && a.size == b.size &&
      commute_class(a.kind, b.kind)) return false;
  return true;
}

enum Outcome { COMPLETE, BLOCKED, FAULT };

// One run of the kernel: follows the choices of frames, extends them.
Outcome run_once(const Snapshot& start, bool explore) {
  restore(start);
  shared.reset();
  ++stamp;
  if (stamp == 0) abort();
  size_t n = (size_t)config->grid.x * config->grid.y * config->grid.z;
  nthreads_block = (size_t)config->block.x * config->block.y * config->block.z;
  for (auto& t : threads) if (t.stack) stack_pool.push_back(t.stack);
  threads.assign(n * nthreads_block, Thread{NEW, nullptr, nullptr, {}, nullptr, 0});
  blocks.assign(n, Block{(int)nthreads_block, 0, 0, nullptr, {}});
  for (size_t b = 0; b < n; ++b)
    blocks[b].dynamic = config->shared ? shared.get(
        config->shared, "the dynamic shared memory", (int)b, cfg.poison) : nullptr;
  trace.clear();
  run_queue.clear();
  pending_set.clear();
  kernel_fault.clear();
  steps = 0;
  stop_at_visible = explore;
  in_kernel = true;
  ++stats.runs;
  stats.threads += threads.size();
  size_t next_block = 0, depth = 0;
  Outcome out = COMPLETE;
  for (;;) {
    while (!run_queue.empty() && kernel_fault.empty()) {
      int i = run_queue.front();
      run_queue.pop_front();
      step(i);
    }
    if (!kernel_fault.empty()) { out = FAULT; break; }
    if (next_block < n) {
      int b = (int)(cfg.reverse ? n - 1 - next_block : next_block);
      ++next_block;
      for (size_t k = 0; k < nthreads_block; ++k) {
        int i = (int)(b * nthreads_block + k);
        if (cfg.reverse) run_queue.push_front(i); else run_queue.push_back(i);
      }
      continue;
    }
    if (pending_set.empty()) break;
    // a choice
    int chosen = -1;
    if (depth < frames.size()) {
      chosen = frames[depth].chosen;
      if (!pending_set.count(chosen)) {
        kernel_fault = std::string(kernel_name) + ": the emulation is not deterministic";
        out = FAULT;
        break;
      }
    } else {
      Frame f;
      if (depth > 0) {
        Frame& p = frames[depth - 1];
        const Event& e = trace[p.event];
        for (auto* m : {&p.sleep, &p.explored})
          for (auto& s : *m)
            if (s.first != e.tid &&
                !dependent(s.second.op, s.second.observed, e.op, e.observed))
              f.sleep[s.first] = s.second;
      }
      for (int i : pending_set) if (!f.sleep.count(i)) { chosen = i; break; }
      if (chosen < 0) { out = BLOCKED; break; }
      f.chosen = chosen;
      f.backtrack.insert(chosen);
      f.done.insert(chosen);
      frames.push_back(f);
    }
    Frame& f = frames[depth++];
    f.event = trace.size();
    pending_set.erase(chosen);
    step(chosen);
    // the event was recorded by the thread before it went on
  }
  in_kernel = false;
  current = -1;
  stats.events += trace.size();
  return out;
}

// Source-set race analysis of the last run.
void analyse() {
  size_t m = trace.size();
  std::map<int, int> index;  // thread -> clock component
  auto id = [&](int t) {
    auto r = index.insert(std::make_pair(t, (int)index.size()));
    return r.first->second;
  };
  for (auto& e : trace) if (e.tid >= 0) id(e.tid);
  int k = (int)index.size();
  std::vector<std::vector<int>> clock(k, std::vector<int>(k, 0));  // per thread
  std::vector<std::vector<int>> at(m);  // clock of each event
  std::vector<int> number(m, 0);
  std::map<size_t, size_t> frame_of;
  for (size_t d = 0; d < frames.size(); ++d) frame_of[frames[d].event] = d;
  for (size_t j = 0; j < m; ++j) {
    Event& e = trace[j];
    if (e.tid < 0) {  // barrier: joins the clocks of a block
      std::vector<int> joint(k, 0);
      int lo = e.block * (int)nthreads_block, hi = lo + (int)nthreads_block;
      for (auto& t : index)
        if (t.first >= lo && t.first < hi)
          for (int c = 0; c < k; ++c) joint[c] = std::max(joint[c], clock[t.second][c]);
      for (auto& t : index)
        if (t.first >= lo && t.first < hi) clock[t.second] = joint;
      continue;
    }
    int ti = index[e.tid];
    std::vector<int>& mine = clock[ti];
    std::vector<size_t> races;
    std::vector<int> joined = mine;
    for (size_t i = j; i-- > 0;) {
      Event& o = trace[i];
      if (o.tid < 0 || o.tid == e.tid ||
          !dependent(o.op, o.observed, e.op, e.observed)) continue;
      int oi = index[o.tid];
      if (joined[oi] < number[i]) {
        // not ordered before e by anything between them
        races.push_back(i);
        for (int c = 0; c < k; ++c) joined[c] = std::max(joined[c], at[i][c]);
      }
    }
    for (size_t i : races) {
      Event& o = trace[i];
      auto fi = frame_of.find(i);
      if (fi == frame_of.end()) continue;
      Frame& f = frames[fi->second];
      // v = events after i which do not happen after it, then e
      std::set<int> initials, seen;
      std::vector<size_t> v;
      int oi = index[o.tid];
      for (size_t x = i + 1; x < j; ++x) {
        if (trace[x].tid < 0) continue;
        if (at[x][oi] >= number[i]) continue;
        v.push_back(x);
      }
      for (size_t x : v) {
        int t = trace[x].tid;
        if (seen.count(t)) continue;
        bool first = true;
        for (size_t y : v) {
          if (y >= x) break;
          if (at[x][index[trace[y].tid]] >= number[y]) { first = false; break; }
        }
        seen.insert(t);
        if (first) initials.insert(t);
      }
      if (!seen.count(e.tid)) {
        bool first = true;
        // the clock of e before the race with o
        for (size_t y : v) {
          int yi = index[trace[y].tid];
          if (mine[yi] >= number[y]) { first = false; break; }
          if (trace[y].tid != e.tid &&
              dependent(trace[y].op, trace[y].observed, e.op, e.observed)) {
            first = false; break;
          }
        }
        if (first) initials.insert(e.tid);
      }
      bool have = false;
      for (int t : initials) if (f.backtrack.count(t)) have = true;
      if (!have) {
        if (initials.empty()) f.backtrack.insert(e.tid);
        else f.backtrack.insert(initials.count(e.tid) ? e.tid : *initials.begin());
      }
    }
    mine = joined;
    number[j] = ++mine[ti];
    at[j] = mine;
  }
}

void take(const SnapshotPtr& s, std::vector<SnapshotPtr>& list,
          std::unordered_set<uint64_t>& seen) {
  if (seen.insert(s->hash).second) list.push_back(s);
}

std::vector<SnapshotPtr> explore_launch() {
  ++stats.launches;
  SnapshotPtr start = snapshot();
  std::vector<SnapshotPtr> list;
  std::unordered_set<uint64_t> seen;
  visible_reads.clear();
  if (!cfg.explore) {
    if (run_once(*start, false) == FAULT) throw Fault{kernel_fault};
    take(snapshot(), list, seen);
    return list;
  }
  long runs = 0;
again:
  new_visible_reads = false;
  frames.clear();
  list.clear();
  seen.clear();
  for (;;) {
    Outcome o = run_once(*start, true);
    ++runs;
    if (o == FAULT) throw Fault{kernel_fault};
    if (new_visible_reads) goto again;
    if (o == COMPLETE) take(snapshot(), list, seen);
    else ++stats.blocked;
    analyse();
    for (auto& f : frames) {
      const Event& e = trace[f.event];
      f.explored[f.chosen] = SleepOp{e.op, e.observed};
    }
    bool found = false;
    while (!frames.empty()) {
      Frame& f = frames.back();
      int next = -1;
      for (int t : f.backtrack)
        if (!f.done.count(t) && !f.sleep.count(t)) { next = t; break; }
      if (next >= 0) {
        f.chosen = next;
        f.done.insert(next);
        found = true;
        break;
      }
      frames.pop_back();
    }
    if (!found) break;
    if (runs >= cfg.max_runs) { ++stats.capped; break; }
  }
  stats.max_runs = std::max(stats.max_runs, runs);
  return list;
}

// -------------------------------------------------- streams and the host

struct Task {
  enum { KERNEL, SET, COPY } type;
  emu::Config config;
  std::string name;
  std::shared_ptr<emu::Body> body;
  char *to, *from;
  size_t bytes;
  int value;
  std::vector<char> staged;
  bool is_staged;
};
std::vector<Task> queue;
size_t queue_done;
struct Delivery { size_t index; char* to; std::vector<char> data; };
std::vector<Delivery> deliveries;
uint64_t delivered_hash;
cudaError_t last_error = cudaSuccess;

std::vector<SnapshotPtr> path;
size_t launch_index;
std::vector<std::vector<SnapshotPtr>> frontier;
std::unordered_set<uint64_t> seen_states;

void check_range(Arena& arena, const char* p, size_t n, const char* what) {
  if (n == 0) return;
  Arena::Alloc* a = arena.find(p);
  if (!a || p < arena.base + a->start || p + n > arena.base + a->start + a->bytes)
    throw Fault{format("%s of %zu bytes leaves its buffer: %s", what, n,
                       describe(arena, p).c_str())};
  if (!a->live)
    throw Fault{format("%s: the host buffer is freed before the device used it: %s",
                       what, describe(arena, p).c_str())};
}

void run_kernel(Task& t) {
  if (launch_index < path.size()) {
    restore(*path[launch_index++]);
    return;
  }
  config = &t.config;
  kernel_name = t.name.c_str();
  body = t.body.get();
  std::vector<SnapshotPtr> all = explore_launch(), fresh;
  for (auto& s : all) {
    uint64_t key = s->hash * 31 + launch_index * 1000003 + delivered_hash;
    if (seen_states.insert(key).second) fresh.push_back(s);
  }
  body = nullptr;
  if (fresh.empty()) throw Pruned();
  if ((long)(frontier.size() + fresh.size()) > cfg.max_outcomes) {
    ++stats.capped;
    fresh.resize(1);
  }
  for (size_t i = 1; i < fresh.size(); ++i) {
    frontier.push_back(path);
    frontier.back().push_back(fresh[i]);
  }
  path.push_back(fresh[0]);
  ++launch_index;
  restore(*fresh[0]);
}

void execute(size_t index) {
  Task& t = queue[index];
  if (t.type == Task::KERNEL) {
    run_kernel(t);
  } else if (t.type == Task::SET) {
    check_range(device, t.to, t.bytes, "memset");
    memset(t.to, t.value, t.bytes);
  } else {
    const char* from = t.is_staged ? t.staged.data() : t.from;
    if (!t.is_staged) {
      if (device.has(from)) check_range(device, from, t.bytes, "copy from device");
      else if (host.has(from)) check_range(host, from, t.bytes, "copy from host");
    }
    if (device.has(t.to)) {
      check_range(device, t.to, t.bytes, "copy to device");
      memcpy(t.to, from, t.bytes);
    } else {
      deliveries.push_back(Delivery{index, t.to, std::vector<char>(from, from + t.bytes)});
    }
  }
}

void flush(size_t until) {
  while (queue_done < until && queue_done < queue.size()) {
    size_t i = queue_done++;
    execute(i);
  }
}

void deliver(size_t until) {
  std::vector<Delivery> later;
  for (auto& d : deliveries) {
    if (d.index >= until) { later.push_back(d); continue; }
    if (host.has(d.to)) check_range(host, d.to, d.data.size(), "copy to host");
    memcpy(d.to, d.data.data(), d.data.size());
    delivered_hash = hash_bytes(d.data.data(), d.data.size(), delivered_hash + 17);
  }
  deliveries = later;
}

void add(Task t) {
  queue.push_back(std::move(t));
  if (!cfg.lazy) flush(queue.size());
}

Task blank() {
  return Task{Task::SET, emu::Config(1, 1), "", nullptr, nullptr, nullptr, 0, 0, {}, false};
}

void begin_host_run() {
  device.reset();
  host.reset();
  queue.clear();
  queue_done = 0;
  deliveries.clear();
  delivered_hash = 1;
  last_error = cudaSuccess;
  launch_index = 0;
  host_fault_text.clear();
  current = -1;
  in_kernel = false;
}

int image_callback(struct dl_phdr_info* info, size_t, void*) {
  uintptr_t self = (uintptr_t)&begin_host_run;
  for (int i = 0; i < info->dlpi_phnum; ++i) {
    auto& h = info->dlpi_phdr[i];
    if (h.p_type != PT_LOAD) continue;
    uintptr_t lo = info->dlpi_addr + h.p_vaddr;
    if (self < lo || self >= lo + h.p_memsz) continue;
    char *a = nullptr, *b = nullptr;
    for (int j = 0; j < info->dlpi_phnum; ++j) {
      auto& g = info->dlpi_phdr[j];
      if (g.p_type != PT_LOAD) continue;
      char* l = (char*)(info->dlpi_addr + g.p_vaddr);
      if (!a || l < a) a = l;
      if (!b || l + g.p_memsz > b) b = l + g.p_memsz;
    }
    image_start = a;
    image_end = b;
    return 1;
  }
  return 0;
}

struct Value {
  int type;
  std::vector<long long> shape;
  std::vector<char> data;
};
struct Result_ { std::string error; std::vector<Value> outputs; };
std::map<std::string, int> attributes;
std::vector<Value> inputs;
std::vector<Result_> results;
std::string fault_text;

}  // namespace

// ------------------------------------------------------------ device side

namespace emu {

long atomic_enter(const void* address, size_t size, Kind kind) {
  if (current < 0) throw Fault{"an atomic operation on the host"};
  visible((const char*)address, (int)size, kind);
  kernel_access((const char*)address, size, ATOMIC_, kind);
  trace.push_back(Event{current, Pending{(const char*)address, (int)size, kind},
                        false, -1});
  return (long)trace.size() - 1;
}

void atomic_observed(long event) { trace[event].observed = true; }

void barrier(const char* file, int line) {
  Thread& t = threads[current];
  t.state = BARRIER;
  t.file = file;
  t.line = line;
  if (++steps > cfg.step_limit) kernel_fault_now("does not come to an end");
  to_scheduler();
}

static uint3 split(size_t i, dim3 d) {
  uint3 r = {(unsigned)(i % d.x), (unsigned)(i / d.x % d.y),
             (unsigned)(i / d.x / d.y)};
  return r;
}
uint3 thread_index() { return split(current % nthreads_block, config->block); }
uint3 block_index() { return split(current / nthreads_block, config->grid); }
dim3 block_dim() { return config->block; }
dim3 grid_dim() { return config->grid; }
void* dynamic_shared() {
  void* p = blocks[current / nthreads_block].dynamic;
  if (!p) kernel_fault_now("uses dynamic shared memory, but was given none");
  return p;
}
void* static_shared(const char* file, int line, const char* name, size_t size) {
  int b = (int)(current / nthreads_block);
  void*& p = blocks[b].statics[format("%s:%d:%s:%zu", file, line, name, size)];
  if (!p) {
    if (shared.top + size + 4 * BLOCK > shared.size)
      kernel_fault_now("uses too much shared memory");
    p = shared.get(size, std::string("the shared variable ") + name, b, cfg.poison);
  }
  return p;
}
void unsupported(const char* what) { throw Fault{std::string("unsupported: ") + what}; }

void enqueue(const Config& config, const char* name, Body* body) {
  std::shared_ptr<Body> owner(body);
  size_t threads = (size_t)config.block.x * config.block.y * config.block.z;
  size_t grid = (size_t)config.grid.x * config.grid.y * config.grid.z;
  if (threads == 0 || threads > 1024 || grid == 0 || grid > 0x7fffffffull ||
      config.shared > 48 * 1024) {
    last_error = cudaErrorInvalidConfiguration;
    return;
  }
  if (threads * grid > 4000000) throw Fault{std::string(name) + ": grid too large to emulate"};
  Task t = blank();
  t.type = Task::KERNEL;
  t.config = config;
  t.name = name;
  t.body = owner;
  add(std::move(t));
}

void* allocate(size_t bytes, bool on_host, const std::string& label) {
  return on_host ? host.get(bytes, label, 0, cfg.poison)
                 : device.get(bytes, label, 0, cfg.poison);
}
void release(void* p, bool on_host) {
  if (!on_host) return;  // device memory is reused in stream order
  Arena::Alloc* a = host.find(p);
  a->live = false;
  memset(host.base + a->start, 0xAB, a->bytes);
}
const cudaStream_t& stream() {
  static const cudaStream_t s = (cudaStream_t)0x10;
  return s;
}
[[noreturn]] void host_fault(const std::string& what) { throw Fault{what}; }

}  // namespace emu

struct EmuEvent { long position; };

cudaError_t cudaGetDevice(int* d) { *d = 0; return cudaSuccess; }
cudaError_t cudaGetDeviceProperties(cudaDeviceProp* p, int) {
  memset(p, 0, sizeof(*p));
  p->warpSize = 32;
  p->multiProcessorCount = cfg.sms;
  p->maxThreadsPerBlock = 1024;
  p->maxThreadsPerMultiProcessor = 2048;
  p->regsPerBlock = p->regsPerMultiprocessor = 65536;
  p->sharedMemPerBlock = 48 * 1024;
  p->sharedMemPerMultiprocessor = 96 * 1024;
  p->totalGlobalMem = device.size;
  p->major = 7;
  return cudaSuccess;
}
cudaError_t emu_occupancy(int* blocks, size_t threads, size_t bytes) {
  *blocks = cfg.blocks_per_sm;
  return cudaSuccess;
}
cudaError_t cudaMemsetAsync(void* p, int v, size_t n, cudaStream_t) {
  Task t = blank();
  t.type = Task::SET;
  t.to = (char*)p;
  t.value = v;
  t.bytes = n;
  add(std::move(t));
  return cudaSuccess;
}
cudaError_t cudaMemset(void* p, int v, size_t n) { return cudaMemsetAsync(p, v, n); }
cudaError_t cudaMemcpyAsync(void* d, const void* s, size_t n, cudaMemcpyKind kind, cudaStream_t) {
  bool to_device = device.has(d), from_device = device.has(s);
  if ((kind == cudaMemcpyHostToDevice && (!to_device || from_device)) ||
      (kind == cudaMemcpyDeviceToHost && (to_device || !from_device)) ||
      (kind == cudaMemcpyDeviceToDevice && (!to_device || !from_device)))
    if (n) throw Fault{"a copy has the wrong direction"};
  Task t = blank();
  t.type = Task::COPY;
  t.to = (char*)d;
  t.from = (char*)s;
  t.bytes = n;
  if (!from_device && !host.has(s)) {  // pageable memory is staged at the call
    t.staged.assign((char*)s, (char*)s + n);
    t.is_staged = true;
  }
  bool blocking = !to_device && !host.has(d);
  add(std::move(t));
  if (blocking) { flush(queue.size()); deliver(queue.size()); }
  return cudaSuccess;
}
cudaError_t cudaMemcpy(void* d, const void* s, size_t n, cudaMemcpyKind k) {
  cudaMemcpyAsync(d, s, n, k);
  return cudaDeviceSynchronize();
}
cudaError_t cudaEventCreate(cudaEvent_t* e) { *e = new EmuEvent{-1}; return cudaSuccess; }
cudaError_t cudaEventCreateWithFlags(cudaEvent_t* e, unsigned) { return cudaEventCreate(e); }
cudaError_t cudaEventDestroy(cudaEvent_t e) { delete e; return cudaSuccess; }
cudaError_t cudaEventRecord(cudaEvent_t e, cudaStream_t) {
  e->position = (long)queue.size();
  return cudaSuccess;
}
cudaError_t cudaEventSynchronize(cudaEvent_t e) {
  if (e->position >= 0) {
    flush((size_t)e->position);
    deliver((size_t)e->position);
  }
  return cudaSuccess;
}
cudaError_t cudaEventElapsedTime(float* ms, cudaEvent_t, cudaEvent_t) {
  *ms = 0;
  return cudaSuccess;
}
cudaError_t cudaStreamSynchronize(cudaStream_t) { return cudaDeviceSynchronize(); }
cudaError_t cudaDeviceSynchronize() {
  flush(queue.size());
  deliver(queue.size());
  return cudaSuccess;
}
// The op sources end the process when the last error is not cudaSuccess.
cudaError_t cudaPeekAtLastError() {
  if (last_error != cudaSuccess)
    throw Fault{std::string("CUDA error: ") + cudaGetErrorString(last_error)};
  return cudaSuccess;
}
cudaError_t cudaGetLastError() { return cudaPeekAtLastError(); }
const char* cudaGetErrorString(cudaError_t e) {
  return e == cudaErrorInvalidConfiguration ? "invalid configuration of a launch" : "error";
}

// ------------------------------------------------------------------ hooks

extern "C" {
#define EMU_HOOK(N)                                                       \
  void __tsan_read##N(void* p) { on_access(p, N, false); }                \
  void __tsan_write##N(void* p) { on_access(p, N, true); }                \
  void __tsan_unaligned_read##N(void* p) { on_access(p, N, false); }      \
  void __tsan_unaligned_write##N(void* p) { on_access(p, N, true); }      \
  void __tsan_read_write##N(void* p) { on_access(p, N, false); on_access(p, N, true); } \
  void __tsan_unaligned_read_write##N(void* p) { on_access(p, N, false); on_access(p, N, true); }
EMU_HOOK(1) EMU_HOOK(2) EMU_HOOK(4) EMU_HOOK(8) EMU_HOOK(16)
void __tsan_read_range(void* p, size_t n) { if (n) on_access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { if (n) on_access(p, n, true); }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  if (n) { on_access(s, n, false); on_access(d, n, true); }
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  if (n) { on_access(s, n, false); on_access(d, n, true); }
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, size_t n) {
  if (n) on_access(d, n, true);
  return memset(d, v, n);
}
#define EMU_TSAN_ATOMIC(N, T)                                                   \
  T __tsan_atomic##N##_load(const volatile T* p, int) { return *p; }            \
  void __tsan_atomic##N##_store(volatile T* p, T v, int) { *p = v; }            \
  T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int) { T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int) { T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##N##_exchange(volatile T* p, T v, int) { T o = *p; *p = v; return o; } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { \
    if (*p == *c) { *p = v; return 1; } *c = *p; return 0; }
EMU_TSAN_ATOMIC(8, unsigned char)
EMU_TSAN_ATOMIC(32, unsigned int)
EMU_TSAN_ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
// kernels take their seed from the clock
time_t emu_clock = 1234567;
time_t __wrap_time(time_t* t) { if (t) *t = emu_clock; return emu_clock; }
}

// ---------------------------------------------------------------- the ops

namespace tensorflow {

std::map<std::string, OpDef>& op_registry() {
  static std::map<std::string, OpDef> r;
  return r;
}
std::map<std::string, KernelDef>& kernel_registry() {
  static std::map<std::string, KernelDef> r;
  return r;
}

Status OpKernelContext::allocate_output(int i, const TensorShape& s, Tensor** out) {
  if (i < 0 || i >= (int)outputs.size())
    throw Fault{"the op allocates an output which it does not have"};
  for (long long d : s.all())
    if (d < 0) throw Fault{"the op allocates an output of negative size"};
  bool on_host = output_host[i];
  void* p = emu::allocate(s.num_elements() * DataTypeSize(output_types[i]), on_host,
                          format("output %d", i));
  delete outputs[i];
  outputs[i] = new Tensor(output_types[i], s, p);
  *out = outputs[i];
  return Status();
}

Status OpKernelContext::allocate_temp(DataType t, const TensorShape& s, Tensor* out,
                                      AllocatorAttributes a) {
  for (long long d : s.all())
    if (d < 0) throw Fault{"the op allocates a buffer of negative size"};
  void* p = emu::allocate(s.num_elements() * DataTypeSize(t), a.on_host(),
                          a.on_host() ? "a temporary host buffer" : "a temporary buffer");
  out->own(t, s, p, a.on_host());
  return Status();
}

}  // namespace tensorflow

namespace {

using namespace tensorflow;

Result_ host_run(const OpDef& def, const KernelDef& kernel) {
  begin_host_run();
  ++stats.host_runs;
  Result_ r;
  OpKernelConstruction construction(attributes);
  std::unique_ptr<OpKernel> op(kernel.make(&construction));
  if (!construction.status().ok()) {
    r.error = construction.status().error_message();
    return r;
  }
  auto on_host = [&](const std::string& n) {
    for (auto& h : kernel.host) if (h == n) return true;
    return false;
  };
  {
    OpKernelContext context;
    std::vector<std::unique_ptr<Tensor>> tensors;
    for (size_t i = 0; i < inputs.size(); ++i) {
      bool h = on_host(def.inputs[i].first);
      char* p = (char*)emu::allocate(inputs[i].data.size(), h,
                                     "the input " + def.inputs[i].first);
      memcpy(p, inputs[i].data.data(), inputs[i].data.size());
      tensors.emplace_back(new Tensor((DataType)inputs[i].type,
                                      TensorShape(inputs[i].shape), p));
      context.inputs.push_back(tensors.back().get());
    }
    for (auto& o : def.outputs) {
      context.output_types.push_back(o.second);
      context.output_host.push_back(on_host(o.first));
    }
    context.outputs.assign(def.outputs.size(), nullptr);
    op->Compute(&context);
    // the op has returned, and with it its temporary tensors are gone
    flush(queue.size());
    deliver(queue.size());
    if (!host_fault_text.empty()) throw Fault{host_fault_text};
    if (last_error != cudaSuccess) cudaPeekAtLastError();
    if (!context.status().ok()) {
      r.error = context.status().error_message();
    } else {
      for (size_t i = 0; i < def.outputs.size(); ++i) {
        Value v;
        Tensor* t = context.outputs[i];
        if (!t) throw Fault{format("the op does not set its output %d", (int)i)};
        v.type = t->dtype();
        v.shape = t->shape().all();
        v.data.assign((char*)t->raw(), (char*)t->raw() +
                      t->NumElements() * DataTypeSize(t->dtype()));
        r.outputs.push_back(v);
      }
    }
    // inputs must be left as they are
    for (size_t i = 0; i < inputs.size(); ++i)
      if (memcmp(tensors[i]->raw(), inputs[i].data.data(), inputs[i].data.size()))
        throw Fault{"the op changes its input " + def.inputs[i].first};
    for (auto* t : context.outputs) delete t;
  }
  return r;
}

std::string shape_check(const OpDef& def) {
  if (!def.shape) return "no shape function";
  shape_inference::InferenceContext c;
  c.attributes = attributes;
  for (auto& i : inputs) {
    shape_inference::ShapeHandle h;
    h.known = true;
    h.d.assign(i.shape.begin(), i.shape.end());
    c.inputs.push_back(h);
  }
  Status s;
  try {
    s = def.shape(&c);
  } catch (std::out_of_range&) {
    return "";  // an input of a wrong rank
  }
  if (!s.ok()) return "";
  for (auto& r : results) {
    if (!r.error.empty()) continue;
    for (size_t i = 0; i < r.outputs.size(); ++i) {
      if (i >= c.outputs.size() || !c.outputs[i].known) continue;
      auto& want = c.outputs[i].d;
      auto& have = r.outputs[i].shape;
      bool ok = want.size() == have.size();
      for (size_t k = 0; ok && k < want.size(); ++k)
        ok = want[k] < 0 || want[k] == have[k];
      if (!ok) return format("the shape function is wrong about output %d", (int)i);
    }
  }
  return "";
}

}  // namespace

extern "C" {

void emu_configure(int sms, int blocks_per_sm, int explore, int reverse, int lazy,
                   int poison, long max_runs, long max_outcomes, long clock_) {
  cfg.sms = sms;
  cfg.blocks_per_sm = blocks_per_sm;
  cfg.explore = explore;
  cfg.reverse = reverse;
  cfg.lazy = lazy;
  cfg.poison = poison;
  cfg.max_runs = max_runs;
  cfg.max_outcomes = max_outcomes;
  emu_clock = clock_;
}

void emu_begin() { attributes.clear(); inputs.clear(); results.clear(); }
void emu_attribute(const char* name, int value) { attributes[name] = value; }
void emu_input(int type, int dims, const long long* shape, const void* data, long bytes) {
  Value v;
  v.type = type;
  v.shape.assign(shape, shape + dims);
  v.data.assign((const char*)data, (const char*)data + bytes);
  inputs.push_back(v);
}

// Explores all schedules of an op. Returns the number of distinct results or
// -1 on a fault.
int emu_run(const char* name) {
  if (!device.base) {
    const size_t size = 64u << 20;
    device.create(size, 0x510000000000ull);
    shared.create(size, 0x520000000000ull);
    host.create(size, 0x530000000000ull);
    cells_device = make_cells(size);
    cells_shared = make_cells(size);
    dl_iterate_phdr(image_callback, nullptr);
  }
  fault_text.clear();
  auto d = tensorflow::op_registry().find(name);
  auto k = tensorflow::kernel_registry().find(name);
  if (d == tensorflow::op_registry().end() || k == tensorflow::kernel_registry().end()) {
    fault_text = std::string("the op or its kernel is not registered: ") + name;
    return -1;
  }
  const tensorflow::OpDef& def = d->second;
  if (def.inputs.size() != inputs.size()) {
    fault_text = "wrong number of inputs";
    return -1;
  }
  for (size_t i = 0; i < inputs.size(); ++i)
    if (inputs[i].type != def.inputs[i].second) {
      fault_text = "wrong type of the input " + def.inputs[i].first;
      return -1;
    }
  for (auto& a : def.attrs)
    if (!attributes.count(a)) {
      fault_text = "missing attribute " + a;
      return -1;
    }
  frontier.clear();
  seen_states.clear();
  std::unordered_set<uint64_t> seen;
  frontier.push_back({});
  try {
    while (!frontier.empty()) {
      path = frontier.back();
      frontier.pop_back();
      try {
        Result_ r = host_run(def, k->second);
        uint64_t h = hash_bytes(r.error.data(), r.error.size());
        for (auto& o : r.outputs) h = hash_bytes(o.data.data(), o.data.size(), h + o.data.size());
        if (seen.insert(h).second) results.push_back(r);
      } catch (Pruned&) {
      }
    }
    std::string s = shape_check(def);
    if (!s.empty()) throw Fault{s};
  } catch (Fault& f) {
    fault_text = f.what;
    in_kernel = false;
    current = -1;
    return -1;
  }
  stats.outcomes += results.size();
  return (int)results.size();
}

const char* emu_fault() { return fault_text.c_str(); }
const char* emu_result_error(int r) { return results[r].error.c_str(); }
int emu_result_outputs(int r) { return (int)results[r].outputs.size(); }
int emu_result_type(int r, int o) { return results[r].outputs[o].type; }
int emu_result_dims(int r, int o) { return (int)results[r].outputs[o].shape.size(); }
long long emu_result_dim(int r, int o, int d) { return results[r].outputs[o].shape[d]; }
const void* emu_result_data(int r, int o) { return results[r].outputs[o].data.data(); }
long emu_statistic(int i) {
  long s[] = {stats.launches, stats.runs, stats.events, stats.threads, stats.blocked,
              stats.capped, stats.barriers, stats.accesses, stats.host_runs,
              stats.outcomes, stats.max_runs};
  return s[i];
}
// What the shape function of an op says before the op is run. The shapes of the
// inputs are a flat list: rank, or -1, and dimensions, -1 for unknown ones.
const char* emu_infer(const char* name, const long long* flat) {
  static std::string s;
  s.clear();
  auto it = tensorflow::op_registry().find(name);
  if (it == tensorflow::op_registry().end() || !it->second.shape) return "";
  tensorflow::shape_inference::InferenceContext c;
  c.attributes = attributes;
  for (size_t i = 0; i < it->second.inputs.size(); ++i) {
    tensorflow::shape_inference::ShapeHandle h;
    long long rank = *flat++;
    h.known = rank >= 0;
    for (long long k = 0; k < rank; ++k) h.d.push_back(*flat++);
    c.inputs.push_back(h);
  }
  try {
    if (!it->second.shape(&c).ok()) return "";
  } catch (std::out_of_range&) {
    return "";
  }
  for (auto& o : c.outputs) {
    s += o.known ? "" : "?";
    for (auto d : o.d) s += std::to_string((long long)d) + ",";
    s += ";";
  }
  return s.c_str();
}
// The signature of an op: inputs, then attributes, as one text.
const char* emu_signature(int i) {
  static std::string s;
  auto it = tensorflow::op_registry().begin();
  for (int k = 0; k < i && it != tensorflow::op_registry().end(); ++k) ++it;
  if (it == tensorflow::op_registry().end()) return "";
  s = it->first + "|";
  for (auto& a : it->second.inputs) s += a.first + ":" + std::to_string(a.second) + ",";
  s += "|";
  for (auto& a : it->second.outputs) s += a.first + ":" + std::to_string(a.second) + ",";
  s += "|";
  for (auto& a : it->second.attrs) s += a + ",";
  return s.c_str();
}

}
