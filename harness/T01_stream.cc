// self test of the stream model
// @cases 1
// @reach ok
#include "sym.h"
#include <sstream>
#include <iostream>
#include <iomanip>
extern "C" int harness_main() {
    std::stringstream ss;
    int32_t v = (int32_t)sym_range(0, 1500, "v") - 700;
    ss << "a" << v << ' ' << std::hex << 255 << std::dec << " " << std::setw(5) << 7 << std::left << std::setw(4) << "x" << "|" << 1.5 << std::endl;
    std::string w; int back;
    ss.get(); ss >> back >> w;
    SYM_ASSERT(back == v && w == "ff", "roundtrip");
    std::string line; std::getline(ss, line);
    SYM_ASSERT(line == "     7x   |1.5", "pad");
    for ( char c : ss.str() ) sym_log(c);
    std::cout << "hello" << 3 << std::endl;
    std::istringstream is("12 0x 3.25 zz"); int a; std::string s; double d; int bad = 9;
    is >> a >> s >> d >> bad;
    SYM_ASSERT(a == 12 && s == "0x" && d == 3.25 && is.fail() && bad == 0, "parse");
    sym_reach("ok");
    return 0;
}
