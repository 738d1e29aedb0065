// the standard headers the project's headers rely on (coh3-*.hpp includes some of them inside a
// namespace, so they have to come first)
#include <iostream>
#include <cmath>
#include <array>
#include <vector>
#include <string>
#include <map>
#include <tuple>
#include <variant>
#include <optional>
#include <exception>
#include <stdexcept>
#include <functional>
#include <numeric>
#include <algorithm>
#include <complex>
#include <cstdlib>
#include <cstdio>
#include <sstream>
#include <iterator>
#include <memory>
#include <type_traits>
#include <utility>
#include <limits>
#include <set>
