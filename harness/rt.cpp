// Runtime part interpreted by pse: std::string's member functions and number formatting.
#include <string>
#undef to_string
#include "pse.h"
template class std::basic_string<char>;
template std::string std::operator+(const std::string&, const std::string&);
namespace std
{
#define INTS(T) string pse_to_string(T v) { if (pse_is_symbolic_i((long long)v)) return "<sym>"; return to_string(v); }
INTS(int) INTS(unsigned) INTS(long) INTS(unsigned long) INTS(long long) INTS(unsigned long long)
string pse_to_string(float v) { return to_string(v); }
string pse_to_string(double v) { if (pse_is_symbolic_d(v)) { char b[32]; pse_token(b, v); return b; } return to_string(v); }
string pse_to_string(long double) { return "<ld>"; }
} // namespace std
