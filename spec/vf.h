// Vocabulary shared by the reference functions. Nothing here is ever executed:
// the analyser evaluates repo code and references over the same value terms.
#pragma once
#include <cmath>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
namespace vf {
void assume(bool);
template <class T> void unit(const T &);  // components are those of a unit vector / quaternion
template <class T> T any(const char *name);  // an arbitrary value, the same for the same name
}
