// must compile: rounding in constant expressions
#include <cslibs_path_planning/common/TmpMath.hpp>
template <int N> struct Const { static const int value = N; };
constexpr int d = tmpmath::round(-2.5);
constexpr int a = tmpmath::round(1.25);
int b[Const<tmpmath::round(7.75)>::value];
