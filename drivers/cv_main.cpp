#include "cv_toy.hpp"
int main(int argc, char **argv) {
    if (argc < 3) return 2;
    {   // the representation relation first: lines are exported in no particular order
        std::ifstream in(argv[1]);
        std::string line;
        while (std::getline(in, line))
            if (line.find("rep") < 8) cvr::load(rp::parse(line));
    }
    return rp::run(argc, argv, [](const rp::Val &v) { cvr::handle(v); }, 60);
}
