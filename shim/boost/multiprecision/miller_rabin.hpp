#pragma once
#include <boost/multiprecision/number.hpp>
