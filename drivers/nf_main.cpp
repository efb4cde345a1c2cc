#include "nf.hpp"
int main(int argc, char **argv) {
    if (argc == 3 && std::string(argv[1]) == "--dump") {
        std::ofstream o(argv[2]);
        for (auto &d : nf::dumps()) d.f(o, d.key);
        return o ? 0 : 1;
    }
    return rp::run(argc, argv, tw::handle);
}
