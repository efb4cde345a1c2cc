#pragma once
#include <boost/multiprecision/number.hpp>
#include <boost/multiprecision/modular_rt.hpp>
