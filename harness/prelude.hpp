// Forced include for the symbolic build only: formatting a symbolic number (into trace messages) must not fork.
#pragma once
#include <string>
namespace std
{
string pse_to_string(int v);
string pse_to_string(unsigned v);
string pse_to_string(long v);
string pse_to_string(unsigned long v);
string pse_to_string(long long v);
string pse_to_string(unsigned long long v);
string pse_to_string(float v);
string pse_to_string(double v);
string pse_to_string(long double v);
} // namespace std
#define to_string pse_to_string
