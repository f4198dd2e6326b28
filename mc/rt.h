// Model-checking runtime: runs OpenDAX components (server, client library, modules) as shared
// objects inside one process with every source of nondeterminism replaced (heap, sockets, threads,
// clock), so that a whole-system state can be saved, restored, hashed and branched from.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>
#include <signal.h>

namespace rt {

// ---------- lifecycle -------------------------------------------------------
void init();                                   // maps the arena, must be first
void *load(const char *so);                    // dlopen, registers its writable segments
void *sym(void *h, const char *name, bool must = true);

// ---------- snapshots -------------------------------------------------------
struct Snap { std::vector<unsigned char> b; Snap() {} Snap(const Snap &o) : b(o.b) {} Snap(Snap &&o) noexcept : b(std::move(o.b)) {} Snap &operator=(const Snap &o) { b = o.b; return *this; } ~Snap(); };   // buffers are pooled
void save(Snap &s);
void restore(const Snap &s);
uint64_t hash();                               // hash of the complete system state

// ---------- coroutines / processes ------------------------------------------
enum { MAXCO = 12, MAXPROC = 5 };
int  spawn(int proc, std::function<void()> *fn);           // harness-side coroutine (not snapshotted closure)
void dirty_stack(int co, uint32_t word, size_t n);      // the unused stack of a stopped thread gets this content (uninitialised variables)
int  spawn_c(int proc, void *(*fn)(void *), void *arg);
bool alive(int co); void reap(int co);
bool run_idle();                               // runs everything until no coroutine can move. false: budget exceeded
int  current_proc();
// exploration of schedules (engine B): called when a choice among enabled coroutines exists.
// n enabled; cur = index of the running one in the enabled list (or -1). returns index to run.
extern int (*choose_hook)(int n, const int *ids, int cur);
extern bool preemptive;                        // scheduling points at every sync / io operation
extern int (*env_hook)(const char *what, int n);   // environment answer: 0..n-1, 0 is the default
extern bool deadlocked();                      // some coroutine is blocked on mutex/cond/join/read without deadline
std::string describe_threads();
void set_timeouts_fire(bool on);               // run_idle fires timed waits when nothing else can run
bool fire_earliest_deadline();                 // advances the clock to the earliest timed wait
enum { AT_SYNC = 1, AT_READ, AT_WRITE, AT_ACCESS };
int  enabled(int *ids);                        // runnable coroutines
void run_one(int co);                          // runs it up to its next scheduling point
int  co_proc(int co); int co_at(int co);
size_t co_read_avail(int co);                  // bytes waiting for a coroutine that is about to read
void set_shortread(int on);                    // client reads return one byte (2: and the rest comes only after the receive timeout)
int64_t co_deadline(int co);                   // pending timed wait, or -1
void fire(int co);                             // lets that timed wait expire (advances the clock)
bool co_blocked_cond(int co); void spurious(int co);
void point_access();                           // scheduling point at a memory access of the client
void acc_init(void *lib); int acc_analyse(); extern bool acc_record, acc_points;   // race-directed scheduling points of a -fsanitize=thread client
void raise_signal_main(int proc, void (*h)(int), int sig);
extern void (*sig_point)(); extern void (*exit_hook)(int); extern int (*kill_hook)(int, int); extern int (*sigaction_hook)(int, const struct sigaction *, struct sigaction *);   // called at every shared access / call of the process: signals may be delivered here
extern bool exit_ok; bool signal_server(int sig); int server_exited();   // the server process may end by itself
int  ext_call(int what);                       // from a coroutine: stops it until the harness answers
int  ext_pending(int co); void ext_answer(int co, int v); bool interrupt(int co);

// ---------- virtual network -------------------------------------------------
int  net_connect(int port = 0);                            // harness client connects to server listener; returns conn id (>=0)
void net_send(int conn, const void *p, size_t n);
size_t net_avail(int conn);
size_t net_recv(int conn, void *p, size_t n);  // bytes available to the harness client
bool net_listening(int port); void net_extern(int port, bool on); int net_ext_accept(int port);    // listeners by TCP port; outside hosts played by the harness
int  serial_conn(); int serial_opens();        // harness end of the serial line /dev/mc*
void net_close(int conn);                      // abrupt close from the client side
bool net_server_closed(int conn);              // server closed its end
void net_limit_read(int n);                    // next server read() returns at most n bytes (0 = no limit)
void tick();                                   // select() timeout of the server fires once (idle second passes)
void kill_process(int proc);                   // all its coroutines die, its sockets close
int  server_fd_of(int conn);

// ---------- time ------------------------------------------------------------
extern int64_t *now_ms;

// ---------- allocation statistics -------------------------------------------
size_t heap_live_chunks();
void   fail_malloc_after(int n);               // n-th malloc from now fails (0: off)

// ---------- failure ---------------------------------------------------------
void set_fail(void (*f)(const char *kind, const char *detail));
[[noreturn]] void fatal(const char *fmt, ...);
extern bool in_target;                         // currently executing code under test
}
