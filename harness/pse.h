// Harness API. Under `pse` these functions are symbolic primitives; in a native build (native.cpp) the inputs come
// from a replay file and the assertions are checked on the concrete values.
#pragma once
#include <cstddef>
extern "C" {
int pse_symbolic();                                              // 1 under pse, 0 natively
double pse_double(const char* name);                             // any real
double pse_double_in(const char* name, double lo, double hi);    // any real in [lo,hi]
int pse_int(const char* name);                                   // any 32-bit value
int pse_int_in(const char* name, int lo, int hi);
unsigned char pse_char(const char* name);
bool pse_bool(const char* name);
int pse_choice(const char* name, int n);                         // 0..n-1, explored path by path
void pse_assume(bool cond);
void pse_assert(bool cond, const char* msg);
void pse_reach(const char* label);                               // vacuity guard: must be reached by some path
bool pse_close(double a, double b, double tol);                  // |a-b| <= tol
bool pse_same(double a, double b);                               // the same value, bit for bit (REAL theory: equal)
bool pse_and(bool a, bool b);                                    // without branching
bool pse_or(bool a, bool b);
bool pse_not(bool a);
double pse_ite(bool c, double a, double b);
bool pse_fork(bool c);                                           // decide c on this path
bool pse_is_symbolic_d(double d);
bool pse_is_symbolic_i(long long i);
void pse_stop();                                                 // end this path
void pse_tmpfile(char* buf, size_t n);
void pse_token(char* buf, double v);                             // text for a symbolic value, read by pse_parse_double (symbolic only)
double pse_parse_double(const char* s);
void pse_log(const char* s);
void pse_log_d(const char* s, double v);
void pse_main();
}
