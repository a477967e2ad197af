// Stand-in for OSQP 0.6: same interface, records everything it is given and answers what the test has prepared.
#pragma once

#include <cstdlib>
#include <cstring>
#include <vector>

#ifdef SHIM_OSQP_INT
typedef int c_int;
#else
typedef long long c_int;
#endif
typedef double c_float;

#define OSQP_DUAL_INFEASIBLE_INACCURATE (4)
#define OSQP_PRIMAL_INFEASIBLE_INACCURATE (3)
#define OSQP_SOLVED_INACCURATE (2)
#define OSQP_SOLVED (1)
#define OSQP_MAX_ITER_REACHED (-2)
#define OSQP_PRIMAL_INFEASIBLE (-3)
#define OSQP_DUAL_INFEASIBLE (-4)
#define OSQP_SIGINT (-5)
#define OSQP_TIME_LIMIT_REACHED (-6)
#define OSQP_NON_CVX (-7)
#define OSQP_UNSOLVED (-10)
#define OSQP_INFTY ((c_float)1e30)

enum linsys_solver_type { QDLDL_SOLVER, MKL_PARDISO_SOLVER };
enum osqp_error_type {
  OSQP_DATA_VALIDATION_ERROR = 1,
  OSQP_SETTINGS_VALIDATION_ERROR,
  OSQP_LINSYS_SOLVER_LOAD_ERROR,
  OSQP_LINSYS_SOLVER_INIT_ERROR,
  OSQP_NONCVX_ERROR,
  OSQP_MEM_ALLOC_ERROR,
  OSQP_WORKSPACE_NOT_INIT_ERROR,
};

inline void * c_malloc(std::size_t n) { return std::malloc(n); }
inline void * c_calloc(std::size_t n, std::size_t k) { return std::calloc(n, k); }
inline void c_free(void * p) { std::free(p); }

typedef struct
{
  c_int nzmax, m, n;
  c_int * p;
  c_int * i;
  c_float * x;
  c_int nz;
} csc;

typedef struct
{
  c_int n, m;
  csc *P, *A;
  c_float *q, *l, *u;
} OSQPData;

typedef struct
{
  c_float rho, sigma;
  c_int scaling, adaptive_rho, adaptive_rho_interval;
  c_float adaptive_rho_tolerance, adaptive_rho_fraction;
  c_int max_iter;
  c_float eps_abs, eps_rel, eps_prim_inf, eps_dual_inf, alpha;
  enum linsys_solver_type linsys_solver;
  c_float delta;
  c_int polish, polish_refine_iter, verbose, scaled_termination, check_termination, warm_start;
  c_float time_limit;
} OSQPSettings;

typedef struct
{
  c_float *x, *y;
} OSQPSolution;

typedef struct
{
  c_int iter;
  char status[32];
  c_int status_val, status_polish;
  c_float obj_val, pri_res, dua_res, setup_time, solve_time, update_time, polish_time, run_time;
  c_int rho_updates;
  c_float rho_estimate;
} OSQPInfo;

typedef struct
{
  OSQPData * data;
  OSQPSettings * settings;
  OSQPSolution * solution;
  OSQPInfo * info;
} OSQPWorkspace;

namespace shim_osqp {
/// what the test has prepared and what was recorded
struct Tape
{
  // prepared
  c_int setup_error = 0, solve_error = 0, status = OSQP_SOLVED, iter = 0;
  double obj = 0;
  std::vector<double> x, y;
  // recorded
  int setups = 0, solves = 0, cleanups = 0, warm_starts = 0, live = 0, bad_use = 0;
  c_int n = -1, m = -1;
  struct Mat
  {
    c_int rows = -1, cols = -1;
    std::vector<c_int> p, i;
    std::vector<double> v;
  } P, A;
  std::vector<double> q, l, u, wx, wy;
  OSQPSettings settings{};
};
inline Tape tape;
inline void record(Tape::Mat & r, const csc * a)
{
  r.rows = a->m, r.cols = a->n;
  r.p.assign(a->p, a->p + a->n + 1);
  r.i.assign(a->i, a->i + r.p.back());
  r.v.assign(a->x, a->x + r.p.back());
}
}  // namespace shim_osqp

inline csc * csc_matrix(c_int m, c_int n, c_int nzmax, c_float * x, c_int * i, c_int * p)
{
  csc * r = static_cast<csc *>(c_malloc(sizeof(csc)));
  r->m = m, r->n = n, r->nz = -1, r->nzmax = nzmax, r->x = x, r->i = i, r->p = p;
  return r;
}

inline void osqp_set_default_settings(OSQPSettings * s)
{
  *s = OSQPSettings{0.1, 1e-6, 10, 1, 0, 5, 0.4, 4000, 1e-3, 1e-3, 1e-4, 1e-4, 1.6, QDLDL_SOLVER, 1e-6, 0, 3, 1, 0, 25, 1, 0};
}

inline c_int osqp_setup(OSQPWorkspace ** wp, const OSQPData * d, const OSQPSettings * s)
{
  auto & t = shim_osqp::tape;
  ++t.setups;
  if (!d || !s) return OSQP_DATA_VALIDATION_ERROR;
  t.n = d->n, t.m = d->m;
  shim_osqp::record(t.P, d->P);
  shim_osqp::record(t.A, d->A);
  t.q.assign(d->q, d->q + d->n);
  t.l.assign(d->l, d->l + d->m);
  t.u.assign(d->u, d->u + d->m);
  t.settings = *s;
  for (c_int k = 0; k < d->m; ++k)
    if (d->l[k] > d->u[k]) return OSQP_DATA_VALIDATION_ERROR;
  if (t.setup_error == OSQP_DATA_VALIDATION_ERROR || t.setup_error == OSQP_SETTINGS_VALIDATION_ERROR) return t.setup_error;
  OSQPWorkspace * w = static_cast<OSQPWorkspace *>(c_calloc(1, sizeof(OSQPWorkspace)));
  *wp               = w;
  ++t.live;
  if (t.setup_error) return t.setup_error;
  w->settings  = static_cast<OSQPSettings *>(c_malloc(sizeof(OSQPSettings)));
  *w->settings = *s;
  w->solution  = static_cast<OSQPSolution *>(c_calloc(1, sizeof(OSQPSolution)));
  w->info      = static_cast<OSQPInfo *>(c_calloc(1, sizeof(OSQPInfo)));
  w->solution->x = static_cast<c_float *>(c_calloc(d->n + 1, sizeof(c_float)));
  w->solution->y = static_cast<c_float *>(c_calloc(d->m + 1, sizeof(c_float)));
  w->info->status_val = OSQP_UNSOLVED;
  return 0;
}

inline c_int osqp_warm_start_x(OSQPWorkspace * w, const c_float * x)
{
  auto & t = shim_osqp::tape;
  if (!w || !w->settings) return OSQP_WORKSPACE_NOT_INIT_ERROR;
  w->settings->warm_start = 1;
  t.wx.assign(x, x + t.n);
  ++t.warm_starts;
  return 0;
}
inline c_int osqp_warm_start_y(OSQPWorkspace * w, const c_float * y)
{
  auto & t = shim_osqp::tape;
  if (!w || !w->settings) return OSQP_WORKSPACE_NOT_INIT_ERROR;
  w->settings->warm_start = 1;
  t.wy.assign(y, y + t.m);
  ++t.warm_starts;
  return 0;
}
inline c_int osqp_warm_start(OSQPWorkspace * w, const c_float * x, const c_float * y)
{
  if (!w || !w->settings) return OSQP_WORKSPACE_NOT_INIT_ERROR;
  osqp_warm_start_x(w, x);
  return osqp_warm_start_y(w, y);
}

inline c_int osqp_update_warm_start(OSQPWorkspace * w, c_int v)
{
  if (!w || !w->settings) return OSQP_WORKSPACE_NOT_INIT_ERROR;
  w->settings->warm_start = v;
  return 0;
}

inline c_int osqp_solve(OSQPWorkspace * w)
{
  auto & t = shim_osqp::tape;
  ++t.solves;
  if (!w || !w->settings) return OSQP_WORKSPACE_NOT_INIT_ERROR;
  if (!w->settings->warm_start) {  // the real solver resets its iterates
    t.wx.clear();
    t.wy.clear();
  }
  w->info->status_val = t.status;  // (an error takes precedence over whatever status is left behind)
  if (t.solve_error) return t.solve_error;
  w->info->iter    = t.iter;
  w->info->obj_val = t.obj;
  for (c_int k = 0; k < t.n; ++k) w->solution->x[k] = t.x[k];
  for (c_int k = 0; k < t.m; ++k) w->solution->y[k] = t.y[k];
  return 0;
}

inline c_int osqp_cleanup(OSQPWorkspace * w)
{
  auto & t = shim_osqp::tape;
  ++t.cleanups;
  if (!w) return 0;
  --t.live;
  if (w->solution) {
    c_free(w->solution->x);
    c_free(w->solution->y);
  }
  c_free(w->solution);
  c_free(w->info);
  c_free(w->settings);
  c_free(w);
  return 0;
}
