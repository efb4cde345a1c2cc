#include "toy.hpp"
#include "tw_ops.hpp"
int main(int argc, char **argv) { return rp::run(argc, argv, [](const rp::Val &v) { tw::handle(v); }, 5); }
