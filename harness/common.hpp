// Helpers shared by the harnesses: only pooya's public interface is used.
#pragma once
#include "pse.h"
#include <exception>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "src/helper/trace.hpp"
#include "src/signal/array.hpp"
#include "src/signal/array_signal.hpp"
#include "src/signal/bool_signal.hpp"
#include "src/signal/bus.hpp"
#include "src/signal/int_signal.hpp"
#include "src/signal/scalar_signal.hpp"

#ifdef NDEBUG
constexpr bool checked_build = false;
#else
constexpr bool checked_build = true;
#endif

constexpr double TOL = 1e-6;

// depth of the diagnostic trace (0 in release builds)
inline std::size_t trace_depth()
{
#ifdef NDEBUG
    return 0;
#else
    return pooya::helper::pooya_trace_info.size();
#endif
}

template<typename F>
bool raises(F f)
{
    try
    {
        f();
    }
    catch (const std::exception&)
    {
        return true;
    }
    return false;
}

inline bool eq(double a, double b) { return pse_close(a, b, TOL); }

// name with an index, for symbolic inputs
inline std::string nm(const char* base, int k) { return std::string(base) + char('0' + k / 10) + char('0' + k % 10); }

inline double sym(const char* base, int k, double bound = 100) { return pse_double_in(nm(base, k).c_str(), -bound, bound); }
inline double sym(const char* base, double bound = 100) { return pse_double_in(base, -bound, bound); }

inline pooya::Array sym_array(const char* base, int n, double bound = 100)
{
    pooya::Array a(n);
    for (int i = 0; i < n; i++) a[i] = sym(base, i, bound);
    return a;
}

inline bool eq(const pooya::Array& a, const pooya::Array& b)
{
    if (a.rows() != b.rows()) return false;
    bool r = true;
    for (int i = 0; i < a.rows(); i++) r = pse_and(r, eq(a[i], b[i]));
    return r;
}
inline bool same(const pooya::Array& a, const pooya::Array& b)
{
    if (a.rows() != b.rows()) return false;
    bool r = true;
    for (int i = 0; i < a.rows(); i++) r = pse_and(r, pse_same(a[i], b[i]));
    return r;
}
inline bool same(double a, double b) { return pse_same(a, b); }

// scalars and arrays alike, as arrays
inline pooya::Array arr(double v)
{
    pooya::Array a(1);
    a[0] = v;
    return a;
}
inline pooya::Array arr(const pooya::Array& v) { return v; }
template<typename T>
inline T unarr(const pooya::Array& a)
{
    if constexpr (std::is_same_v<T, double>) return a[0];
    else return a;
}

// a bus of the given signals under automatic labels
inline pooya::Bus make_bus(const std::vector<pooya::Signal>& s)
{
    switch (s.size())
    {
    case 0: return pooya::Bus();
    case 1: return pooya::Bus({s[0]});
    case 2: return pooya::Bus({s[0], s[1]});
    case 3: return pooya::Bus({s[0], s[1], s[2]});
    case 4: return pooya::Bus({s[0], s[1], s[2], s[3]});
    case 5: return pooya::Bus({s[0], s[1], s[2], s[3], s[4]});
    default: pse_stop(); return pooya::Bus();
    }
}
