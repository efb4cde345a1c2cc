// Stand-in for nil/crypto3/detail/pack.hpp of another library of the suite, which
// nil/crypto3/algebra/marshalling.hpp includes and uses nothing of.
#pragma once
