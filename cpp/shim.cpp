// C interface to the C++ implementation, with a simulated allocator.
//
// All calls of the allocator from the code under test (and from the statically linked C++ library)
// go through the functions below: they are counted, memory is filled with nan-like garbage, blocks
// are surrounded by guard words, and the n-th allocation of a call can be made to fail.

#include <errno.h>
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>

#include <exception>
#include <iostream>
#include <map>
#include <new>
#include <sstream>
#include <string>

#include <eigen3/Eigen/Core>
#include <nlohmann/json.hpp>

#include "dmp/Dmp.hpp"
#include "dmp/Trajectory.hpp"
#include "dynamicalsystems/DynamicalSystem.hpp"
#include "dynamicalsystems/ExponentialSystem.hpp"
#include "dynamicalsystems/SigmoidSystem.hpp"
#include "dynamicalsystems/SpringDamperSystem.hpp"
#include "dynamicalsystems/TimeSystem.hpp"
#include "eigenutils/eigen_file_io.hpp"
#include "functionapproximators/FunctionApproximator.hpp"

using namespace DmpBbo;
using Eigen::MatrixXd;
using Eigen::Ref;
using Eigen::VectorXd;

// -- simulated allocator -------------------------------------------------------------------------
extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
}

namespace {
const size_t LARGEST = 64 << 20;
const uint64_t MAGIC = 0x5afe5afe5afe5afeULL, FREED = 0xdeaddeaddeaddeadULL;
struct Head {
  Head *prev, *next;
  uint64_t size, magic;
};  // 32 bytes, followed by the block and a guard word
Head root = {&root, &root, 0, MAGIC};
long n_alloc = 0, n_free = 0, fail_at = -1;
bool counting = false;
bool corrupt = false;

sigjmp_buf env;
bool in_call = false;
char message[512];

void check_guard(Head* h)
{
  uint64_t tail;
  memcpy(&tail, reinterpret_cast<char*>(h + 1) + h->size, 8);
  if (h->magic != MAGIC || tail != MAGIC) corrupt = true;
}

void* sim_alloc(size_t size)
{
  if (counting) {
    n_alloc++;
    if (fail_at > 0 && n_alloc == fail_at) return NULL;
  }
  if (size > LARGEST) return NULL;  // Out of memory, e.g. because a loop does not end
  Head* h = static_cast<Head*>(__real_malloc(sizeof(Head) + size + 8));
  if (!h) return NULL;
  h->size = size;
  h->magic = MAGIC;
  h->next = root.next;
  h->prev = &root;
  root.next->prev = h;
  root.next = h;
  memset(h + 1, 0xFF, size);  // nan
  memcpy(reinterpret_cast<char*>(h + 1) + size, &MAGIC, 8);
  return h + 1;
}

void sim_free(void* p)
{
  if (!p) return;
  Head* h = static_cast<Head*>(p) - 1;
  if (counting) n_free++;
  if (h->magic != MAGIC) {
    corrupt = true;  // not allocated here, or freed twice
    return;
  }
  check_guard(h);
  h->prev->next = h->next;
  h->next->prev = h->prev;
  memset(h + 1, 0xFF, h->size);
  h->magic = FREED;
  __real_free(h);
}
}  // namespace

extern "C" {
void* __wrap_malloc(size_t n) { return sim_alloc(n); }
void __wrap_free(void* p) { sim_free(p); }
void* __wrap_calloc(size_t n, size_t m)
{
  void* p = sim_alloc(n * m);
  if (p) memset(p, 0, n * m);
  return p;
}
void* __wrap_realloc(void* p, size_t n)
{
  void* q = sim_alloc(n);
  if (q && p) {
    size_t old = (static_cast<Head*>(p) - 1)->size;
    memcpy(q, p, old < n ? old : n);
    sim_free(p);
  }
  return q;
}
void* __wrap_aligned_alloc(size_t, size_t n) { return sim_alloc(n); }
int __wrap_posix_memalign(void** p, size_t, size_t n)
{
  *p = sim_alloc(n);
  return *p ? 0 : 12;
}
void* __wrap__Znwm(size_t n)
{
  void* p = sim_alloc(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void* __wrap__Znam(size_t n) { return __wrap__Znwm(n); }
void __wrap__ZdlPv(void* p) { sim_free(p); }
void __wrap__ZdaPv(void* p) { sim_free(p); }
void __wrap__ZdlPvm(void* p, size_t) { sim_free(p); }
void __wrap__ZdaPvm(void* p, size_t) { sim_free(p); }

// -- simulated file system calls -----------------------------------------------------------------
// Faults of the next call that uses files (the files themselves are in a scratch directory)
enum { IO_NONE, IO_FULL, IO_WRITE_ERROR, IO_SHORT_WRITES, IO_OPEN_FAILS, IO_CLOSE_FAILS,
       IO_READ_ERROR, IO_SHORT_READS, IO_INTERRUPTED };
static int io_kind = IO_NONE;
static long io_n = 0;       // bytes that fit, or the number of the call
static long io_hits = 0, io_calls = 0;

ssize_t __real_write(int, const void*, size_t);
ssize_t __real_read(int, void*, size_t);
FILE* __real_fopen64(const char*, const char*);
int __real_fclose(FILE*);

ssize_t __wrap_write(int fd, const void* b, size_t n)
{
  if (fd <= 2 || io_kind == IO_NONE) return __real_write(fd, b, n);
  io_calls++;
  if (io_kind == IO_FULL) {
    size_t fits = io_n > 0 ? io_n : 0;
    if (fits < n) io_hits++;
    if (fits == 0 && n) {
      errno = ENOSPC;
      return -1;
    }
    if (fits < n) n = fits;
    io_n -= n;
  } else if (io_kind == IO_WRITE_ERROR && io_calls >= io_n) {
    io_hits++;
    errno = EIO;
    return -1;
  } else if (io_kind == IO_SHORT_WRITES && n > size_t(io_n)) {
    io_hits++;
    n = io_n;
  } else if (io_kind == IO_INTERRUPTED && io_calls % 2 == 1) {
    io_hits++;
    errno = EINTR;
    return -1;
  }
  return __real_write(fd, b, n);
}

ssize_t __wrap_writev(int fd, const struct iovec* v, int n)
{
  ssize_t total = 0;
  for (int i = 0; i < n; i++) {
    if (!v[i].iov_len) continue;
    ssize_t r = __wrap_write(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return total ? total : -1;
    total += r;
    if (size_t(r) < v[i].iov_len) break;
  }
  return total;
}

ssize_t __wrap_read(int fd, void* b, size_t n)
{
  if (fd <= 2 || io_kind == IO_NONE) return __real_read(fd, b, n);
  io_calls++;
  if (io_kind == IO_READ_ERROR && io_calls >= io_n) {
    io_hits++;
    errno = EIO;
    return -1;
  } else if (io_kind == IO_SHORT_READS && n > size_t(io_n)) {
    io_hits++;
    n = io_n;
  } else if (io_kind == IO_INTERRUPTED && io_calls % 2 == 1) {
    io_hits++;
    errno = EINTR;
    return -1;
  }
  return __real_read(fd, b, n);
}

FILE* __wrap_fopen64(const char* f, const char* m)
{
  if (io_kind == IO_OPEN_FAILS) {
    io_hits++;
    errno = EMFILE;
    return NULL;
  }
  return __real_fopen64(f, m);
}

int __wrap_fclose(FILE* f)
{
  int rc = __real_fclose(f);
  if (io_kind == IO_CLOSE_FAILS) {
    io_hits++;
    errno = EIO;
    return EOF;
  }
  return rc;
}

// A failed assertion ends the call.
void __wrap___assert_fail(const char* expr, const char* file, unsigned line, const char*)
{
  const char* base = strrchr(file, '/');
  snprintf(message, sizeof message, "assertion failed: %s (%s)", expr, base ? base + 1 : file);
  if (in_call) siglongjmp(env, 2);
  abort();
}
void __wrap_abort(void)
{
  if (in_call) siglongjmp(env, 3);
  _exit(99);
}
}

// -- calls ---------------------------------------------------------------------------------------
static void on_signal(int sig)
{
  snprintf(message, sizeof message, "signal %d", sig);
  if (in_call) siglongjmp(env, 4);
  signal(sig, SIG_DFL);
  raise(sig);
}

static void trapped_begin(struct sigaction* old)
{
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_NODEFER;
  sigaction(SIGSEGV, &sa, &old[0]);
  sigaction(SIGFPE, &sa, &old[1]);
  sigaction(SIGBUS, &sa, &old[2]);
  sigaction(SIGVTALRM, &sa, &old[3]);
  struct itimerval t = {{0, 0}, {20, 0}};  // of computation: a call that does not end
  setitimer(ITIMER_VIRTUAL, &t, NULL);
}
static void trapped_end(struct sigaction* old)
{
  sigaction(SIGSEGV, &old[0], NULL);
  sigaction(SIGFPE, &old[1], NULL);
  sigaction(SIGBUS, &old[2], NULL);
  struct itimerval t = {{0, 0}, {0, 0}};
  setitimer(ITIMER_VIRTUAL, &t, NULL);
  sigaction(SIGVTALRM, &old[3], NULL);
}

// Performs BODY with the allocator counting if RT; returns 0, or a code with an error in message.
template <class F>
static int call(bool rt, F body)
{
  static struct sigaction old[4];
  static volatile int rc;
  message[0] = 0;
  std::cerr.rdbuf(NULL);  // No messages
  std::cout.rdbuf(NULL);
  trapped_begin(old);
  in_call = true;
  rc = sigsetjmp(env, 1);
  if (rc == 0) {
    try {
      if (rt) {
        n_alloc = n_free = 0;
        counting = true;
      }
      body();
      counting = false;
    } catch (const std::exception& e) {
      counting = false;
      snprintf(message, sizeof message, "exception: %s", e.what());
      rc = 1;
    } catch (...) {
      counting = false;
      snprintf(message, sizeof message, "unknown exception");
      rc = 1;
    }
  } else if (!message[0]) {
    snprintf(message, sizeof message, "aborted (%d)", int(rc));
  }
  counting = false;
  in_call = false;
  trapped_end(old);
  return rc;
}

// What a control loop would have: an object and preallocated vectors.
struct Runner {
  DynamicalSystem* sys;
  Dmp* dmp;  // the same object, or NULL
  FunctionApproximator* fa;
  VectorXd x, xd, x_new, y, yd, ydd, arg, out;
  Runner() : sys(NULL), dmp(NULL), fa(NULL) {}
};

extern "C" {

const char* last_error() { return message; }
long allocations() { return n_alloc; }
long releases() { return n_free; }
void set_failure(long n) { fail_at = n; }

// 0 if all blocks in use are intact
int heap_state()
{
  for (Head* h = root.next; h != &root; h = h->next) check_guard(h);
  return corrupt ? 1 : 0;
}
long heap_blocks()
{
  long n = 0;
  for (Head* h = root.next; h != &root; h = h->next) n++;
  return n;
}

static void prepare(Runner* r)
{
  int d = r->sys->dim(), m = r->sys->dim_y();
  r->x = VectorXd(d);
  r->xd = VectorXd(d);
  r->x_new = VectorXd(d);
  r->y = VectorXd(m);
  r->yd = VectorXd(m);
  r->ydd = VectorXd(m);
  r->arg = VectorXd(m);
}

void* load(const char* text, int kind)
{
  Runner* r = NULL;
  int rc = call(false, [&]() {
    nlohmann::json j = nlohmann::json::parse(text);
    r = new Runner();
    if (kind == 0) {
      r->dmp = j.get<Dmp*>();
      r->sys = r->dmp;
    } else if (kind == 1) {
      r->sys = j.get<DynamicalSystem*>();
    } else {
      r->fa = j.get<FunctionApproximator*>();
    }
    if (r->sys) prepare(r);
    r->out = VectorXd(1);
  });
  return rc == 0 ? r : NULL;
}

int unload(void* p)
{
  Runner* r = static_cast<Runner*>(p);
  return call(false, [&]() {
    delete r->sys;
    delete r->fa;
    delete r;
  });
}

int dim(void* p) { return static_cast<Runner*>(p)->sys->dim(); }
int dim_y(void* p) { return static_cast<Runner*>(p)->sys->dim_y(); }
double get_tau(void* p) { return static_cast<Runner*>(p)->sys->tau(); }

static void give(Runner* r, double* x, double* xd)
{
  for (int i = 0; i < r->x.size(); i++) {
    x[i] = r->x[i];
    xd[i] = r->xd[i];
  }
}

int start(void* p, double* x, double* xd)
{
  Runner* r = static_cast<Runner*>(p);
  int rc = call(false, [&]() {
    r->x.fill(NAN);
    r->xd.fill(NAN);
    r->sys->integrateStart(r->x, r->xd);
  });
  give(r, x, xd);
  return rc;
}

// Start in a given state (y part)
int start_at(void* p, const double* y, double* x, double* xd)
{
  Runner* r = static_cast<Runner*>(p);
  int rc = call(false, [&]() {
    for (int i = 0; i < r->arg.size(); i++) r->arg[i] = y[i];
    r->sys->integrateStart(r->arg, r->x, r->xd);
  });
  give(r, x, xd);
  return rc;
}

// mode: 0 integrateStep, 1 Runge-Kutta, 2 Euler; in place, or into another vector
int step(void* p, int mode, int in_place, double dt, double* x, double* xd)
{
  Runner* r = static_cast<Runner*>(p);
  for (int i = 0; i < r->x.size(); i++) r->x[i] = x[i];
  int rc = call(true, [&]() {
    if (in_place) {
      if (mode == 0)
        r->sys->integrateStep(dt, r->x, r->x, r->xd);
      else if (mode == 1)
        r->sys->integrateStepRungeKutta(dt, r->x, r->x, r->xd);
      else
        r->sys->integrateStepEuler(dt, r->x, r->x, r->xd);
    } else {
      if (mode == 0)
        r->sys->integrateStep(dt, r->x, r->x_new, r->xd);
      else if (mode == 1)
        r->sys->integrateStepRungeKutta(dt, r->x, r->x_new, r->xd);
      else
        r->sys->integrateStepEuler(dt, r->x, r->x_new, r->xd);
      for (int i = 0; i < r->x.size(); i++)
        if (r->x[i] != x[i] && !(r->x[i] != r->x[i] && x[i] != x[i])) throw std::runtime_error("state modified");
      r->x = r->x_new;
    }
  });
  give(r, x, xd);
  return rc;
}

int rates(void* p, const double* x, double* xd)
{
  Runner* r = static_cast<Runner*>(p);
  for (int i = 0; i < r->x.size(); i++) r->x[i] = x[i];
  int rc = call(true, [&]() { r->sys->differentialEquation(r->x, r->xd); });
  for (int i = 0; i < r->x.size(); i++) xd[i] = r->xd[i];
  return rc;
}

int pos_vel_acc(void* p, double* y, double* yd, double* ydd)
{
  Runner* r = static_cast<Runner*>(p);
  int rc = call(true, [&]() { r->dmp->stateAsPosVelAcc(r->x, r->xd, r->y, r->yd, r->ydd); });
  for (int i = 0; i < r->y.size(); i++) {
    y[i] = r->y[i];
    yd[i] = r->yd[i];
    ydd[i] = r->ydd[i];
  }
  return rc;
}

int set_goal(void* p, const double* g)
{
  Runner* r = static_cast<Runner*>(p);
  for (int i = 0; i < r->arg.size(); i++) r->arg[i] = g[i];
  return call(true, [&]() {
    if (r->dmp)
      r->dmp->set_y_attr(r->arg);
    else if (ExponentialSystem* e = dynamic_cast<ExponentialSystem*>(r->sys))
      e->set_x_attr(r->arg);
    else if (SpringDamperSystem* s = dynamic_cast<SpringDamperSystem*>(r->sys))
      s->set_y_attr(r->arg);
  });
}

int set_tau(void* p, double tau)
{
  Runner* r = static_cast<Runner*>(p);
  return call(false, [&]() { r->sys->set_tau(tau); });
}

int set_y_init(void* p, const double* y)
{
  Runner* r = static_cast<Runner*>(p);
  for (int i = 0; i < r->arg.size(); i++) r->arg[i] = y[i];
  return call(false, [&]() {
    if (r->dmp)
      r->dmp->set_y_init(r->arg);
    else if (r->sys->dim() == r->sys->dim_y())
      r->sys->set_x_init(r->arg);
    else
      r->sys->set_y_init(r->arg);
  });
}

// xs, xds: row-major n x dim. mode: 0 through integrateStep's system, 1 transposed request, 2 Trajectory
int analytical(void* p, int n, const double* ts, int transposed, double* xs, double* xds)
{
  Runner* r = static_cast<Runner*>(p);
  return call(false, [&]() {
    VectorXd t(n);
    for (int i = 0; i < n; i++) t[i] = ts[i];
    int d = r->sys->dim();
    MatrixXd a, b;
    if (transposed) {
      a = MatrixXd(d, n);
      b = MatrixXd(d, n);
    }
    r->sys->analyticalSolution(t, a, b);
    for (int i = 0; i < n; i++)
      for (int k = 0; k < d; k++) {
        xs[i * d + k] = transposed ? a(k, i) : a(i, k);
        xds[i * d + k] = transposed ? b(k, i) : b(i, k);
      }
  });
}

// out: n x (1 + 3 dim_y), forcing, fa: n x dim_y. mode: which functions are called for it.
int trajectory(void* p, int mode, int n, const double* ts, double* out, double* forcing, double* fa)
{
  Runner* r = static_cast<Runner*>(p);
  return call(false, [&]() {
    VectorXd t(n);
    for (int i = 0; i < n; i++) t[i] = ts[i];
    MatrixXd m, xs, xds, f, o, y, yd, ydd;
    Trajectory traj;
    const Dmp* dmp = r->dmp;
    if (mode == 0) {
      dmp->analyticalSolution(t, traj);
    } else if (mode == 1) {
      dmp->analyticalSolution(t, traj, f);
    } else if (mode == 2) {
      dmp->analyticalSolution(t, xs, xds, f, o);
      dmp->statesAsTrajectory(xs, xds, y, yd, ydd);
    } else if (mode == 3) {
      dmp->analyticalSolution(t, xs, xds, f);
      dmp->statesAsTrajectory(t, xs, xds, traj);
    } else {
      dmp->analyticalSolution(t, xs, xds);
      int d = dmp->dim_dmp();
      y = yd = ydd = MatrixXd(n, d);
      VectorXd a(d), b(d), c(d);
      for (int i = 0; i < n; i++) {
        dmp->stateAsPosVelAcc(xs.row(i).transpose(), xds.row(i).transpose(), a, b, c);
        y.row(i) = a.transpose();
        yd.row(i) = b.transpose();
        ydd.row(i) = c.transpose();
      }
    }
    if (mode == 2 || mode > 3) {
      int d = y.cols();
      m.resize(n, 1 + 3 * d);
      m << t, y, yd, ydd;
    } else {
      traj.asMatrix(m);
    }
    for (int i = 0; i < m.rows(); i++)
      for (int k = 0; k < m.cols(); k++) out[i * m.cols() + k] = m(i, k);
    for (int i = 0; i < f.rows(); i++)
      for (int k = 0; k < f.cols(); k++) forcing[i * f.cols() + k] = f(i, k);
    for (int i = 0; i < o.rows(); i++)
      for (int k = 0; k < o.cols(); k++) fa[i * o.cols() + k] = o(i, k);
  });
}

// A DMP from a constructor. text: list with function approximators, or empty.
// which: 0 type, 1 type and later the states, 2 without forcing term
void* construct(const char* text, int which, int n, double tau, const double* y0,
                const double* g, const char* type, const char* scaling, const double* amplitudes)
{
  Runner* r = NULL;
  int rc = call(false, [&]() {
    VectorXd y_init(n), y_attr(n), amp(n);
    for (int i = 0; i < n; i++) {
      y_init[i] = y0[i];
      y_attr[i] = g[i];
      amp[i] = amplitudes[i];
    }
    if (std::string(scaling) != "AMPLITUDE_SCALING") amp = VectorXd(0);
    std::vector<FunctionApproximator*> fas;
    if (text[0]) {
      nlohmann::json j = nlohmann::json::parse(text);
      for (size_t i = 0; i < j.size(); i++) fas.push_back(j.at(i).get<FunctionApproximator*>());
    }
    r = new Runner();
    if (which == 0) {
      r->dmp = new Dmp(tau, y_init, y_attr, fas, type, scaling, amp);
    } else if (which == 1) {
      r->dmp = new Dmp(n, fas, type, scaling, amp);
      r->dmp->set_tau(tau);
      r->dmp->set_y_init(y_init);
      r->dmp->set_y_attr(y_attr);
    } else {
      r->dmp = new Dmp(tau, y_init, y_attr, 20.0, new ExponentialSystem(tau, y_init, y_attr, 15.0));
    }
    r->sys = r->dmp;
    prepare(r);
    r->out = VectorXd(1);
  });
  return rc == 0 ? r : NULL;
}

int predict(void* p, int n, int d, const double* inputs, double* outputs, int real_time)
{
  Runner* r = static_cast<Runner*>(p);
  if (real_time) {
    Eigen::RowVectorXd in(d);
    int rc = 0;
    long total = 0;
    for (int i = 0; i < n && rc == 0; i++) {
      for (int k = 0; k < d; k++) in[k] = inputs[i * d + k];
      rc = call(true, [&]() { r->fa->predictRealTime(in, r->out); });
      total += n_alloc;
      outputs[i] = r->out[0];
    }
    n_alloc = total;
    return rc;
  }
  return call(false, [&]() {
    MatrixXd in(n, d), out;
    for (int i = 0; i < n; i++)
      for (int k = 0; k < d; k++) in(i, k) = inputs[i * d + k];
    r->fa->predict(in, out);
    for (int i = 0; i < n; i++) outputs[i] = out(i, 0);
  });
}

// -- trajectories and files ----------------------------------------------------------------------
void set_io_fault(int kind, long n)
{
  io_kind = kind;
  io_n = n;
  io_hits = io_calls = 0;
}
long io_fault_hits() { return io_hits; }

static VectorXd vec(const double* a, int n)
{
  VectorXd v(n);
  for (int i = 0; i < n; i++) v[i] = a[i];
  return v;
}

static MatrixXd mat(const double* a, int n, int m)
{
  MatrixXd v(n, m);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < m; j++) v(i, j) = a[i * m + j];
  return v;
}

// kind: 0 from values (a: n x (3 d + n_misc)), 1 minimum jerk (a: from, to), 2 polynomial (a: 6
// vectors), 3 through a viapoint (a: from, to, viapoint (3 vectors), time of the viapoint)
void* traj_make(int kind, int n, int d, int n_misc, const double* ts, const double* a)
{
  Trajectory* t = NULL;
  int rc = call(false, [&]() {
    VectorXd times = vec(ts, n);
    if (kind == 0) {
      MatrixXd m = mat(a, n, 3 * d + n_misc);
      if (n_misc)
        t = new Trajectory(times, m.leftCols(d), m.middleCols(d, d), m.middleCols(2 * d, d),
                           m.rightCols(n_misc));
      else
        t = new Trajectory(times, m.leftCols(d), m.middleCols(d, d), m.middleCols(2 * d, d));
    } else if (kind == 1) {
      t = new Trajectory(Trajectory::generateMinJerkTrajectory(times, vec(a, d), vec(a + d, d)));
    } else if (kind == 2) {
      t = new Trajectory(Trajectory::generatePolynomialTrajectory(
          times, vec(a, d), vec(a + d, d), vec(a + 2 * d, d), vec(a + 3 * d, d),
          vec(a + 4 * d, d), vec(a + 5 * d, d)));
    } else {
      t = new Trajectory(Trajectory::generatePolynomialTrajectoryThroughViapoint(
          times, vec(a, d), vec(a + 2 * d, 3 * d), a[5 * d], vec(a + d, d)));
    }
  });
  return rc == 0 ? t : NULL;
}

int traj_free(void* p)
{
  return call(false, [&]() { delete static_cast<Trajectory*>(p); });
}

int traj_append(void* p, void* q)
{
  return call(false, [&]() { static_cast<Trajectory*>(p)->append(*static_cast<Trajectory*>(q)); });
}

int traj_set_misc(void* p, const double* a, int n, int m)
{
  return call(false, [&]() { static_cast<Trajectory*>(p)->set_misc(mat(a, n, m)); });
}

// sizes: length, dim, dim_misc
int traj_sizes(void* p, int* sizes)
{
  Trajectory* t = static_cast<Trajectory*>(p);
  sizes[0] = t->length();
  sizes[1] = t->dim();
  sizes[2] = t->dim_misc();
  return 0;
}

// values: duration, range, initial and final y; matrix: n x (1 + 3 d + n_misc)
int traj_get(void* p, double* values, double* matrix)
{
  Trajectory* t = static_cast<Trajectory*>(p);
  return call(false, [&]() {
    int d = t->dim();
    values[0] = t->duration();
    VectorXd range = t->getRangePerDim(), y0 = t->initial_y(), y1 = t->final_y();
    for (int i = 0; i < d; i++) {
      values[1 + i] = range[i];
      values[1 + d + i] = y0[i];
      values[1 + 2 * d + i] = y1[i];
    }
    // The caller may pass a matrix of another size
    MatrixXd m = MatrixXd::Constant(t->length(), 1, 7.0);
    t->asMatrix(m);
    MatrixXd again = MatrixXd::Constant(t->length() + 3, 5, 7.0);
    t->asMatrix(again);
    if (again.rows() != m.rows() || again.cols() != m.cols() || again != m)
      throw std::runtime_error("asMatrix gives another matrix when it is called again");
    if (m.rows() != t->length() || m.cols() != 1 + 3 * d + t->dim_misc())
      throw std::runtime_error("size of asMatrix");
    for (int i = 0; i < m.rows(); i++)
      for (int k = 0; k < m.cols(); k++) matrix[i * m.cols() + k] = m(i, k);
  });
}

// Both return 0/1 in ok. directory may be NULL.
int traj_save(void* p, const char* directory, const char* name, int overwrite, int* ok)
{
  Trajectory* t = static_cast<Trajectory*>(p);
  return call(false, [&]() {
    *ok = directory ? t->saveToFile(directory, name, overwrite) : t->saveToFile(name, overwrite);
  });
}

// type: 0 matrix, 1 vector
int mat_save(const double* a, int n, int m, int type, const char* directory, const char* name,
             int overwrite, int* ok)
{
  return call(false, [&]() {
    if (type == 0) {
      MatrixXd x = mat(a, n, m);
      *ok = directory ? saveMatrix(directory, name, x, overwrite) : saveMatrix(name, x, overwrite);
    } else {
      VectorXd x = vec(a, n);
      *ok = directory ? saveMatrix(directory, name, x, overwrite) : saveMatrix(name, x, overwrite);
    }
  });
}

void* traj_read(const char* name, int n_misc)
{
  Trajectory* t = NULL;
  int rc = call(false, [&]() { t = new Trajectory(Trajectory::readFromFile(name, n_misc)); });
  return rc == 0 ? t : NULL;
}

// sizes: rows, columns; at most max values are given
int mat_load(const char* name, int type, int* ok, int* sizes, double* a, long max)
{
  return call(false, [&]() {
    MatrixXd m = MatrixXd::Constant(3, 2, 7.0);
    if (type == 0) {
      *ok = loadMatrix(name, m);
    } else {
      VectorXd v = VectorXd::Constant(4, 7.0);
      *ok = loadMatrix(name, v);
      m = v;
    }
    sizes[0] = m.rows();
    sizes[1] = m.cols();
    if (!*ok) return;
    for (int i = 0; i < m.rows(); i++)
      for (int k = 0; k < m.cols(); k++)
        if (long(i) * m.cols() + k < max) a[i * m.cols() + k] = m(i, k);
  });
}
}
